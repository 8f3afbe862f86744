//! The scenario families C14 - C26. Each function builds one document from symbolic choices and names and
//! states, independently of the implementation, which rules it breaks.
use super::gen::*;
use super::sem::*;
use super::sys::*;

fn proj() -> Decl {
    Decl::P(pr("p"))
}
/// none, one symbolic letter, or public
fn schema(k: u32) -> Option<Nm> {
    match k {
        0 => None,
        1 => Some(n1("s")),
        _ => Some(nm("public")),
    }
}
fn raw(x: &str, v: Value) -> Lit {
    Lit::Raw(x.as_bytes().to_vec(), v)
}

/// any character that can stand in a quoted name
fn sep() -> u8 {
    let b = byte(0, 127);
    assume(b != b'"');
    b
}
/// ("x?", "z") and ("x", "?z")
fn joined() -> ((Nm, Nm), (Nm, Nm)) {
    let (x, z, s) = (byte(b'a', b'm'), byte(b'n', b'z'), sep());
    let q = |b: &[u8]| Nm { b: b.to_vec(), q: true };
    ((q(&[x, s]), q(&[z])), (q(&[x]), q(&[s, z])))
}

// ---------------------------------------------------------------- C14
/// k: which kind of name
#[inline(never)]
pub fn names(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    match k {
        // tables: two names, any schemas
        0 | 1 => {
            let n = if k == 0 { 2 } else { 3 };
            let mut t: Vec<(Option<Nm>, Nm)> = Vec::new();
            for i in 0..n {
                let s = schema(pick(3));
                let name = if k == 0 { nb(&[l(), l()]) } else { n1("t") };
                let mut x = tab("x", vec![col("a", "int")]);
                x.s = s.clone();
                x.n = name.clone();
                d.push(Decl::T(x));
                for (j, y) in t.iter().enumerate() {
                    if same(&y.1, &name) && same_schema(&y.0, &s) {
                        vs.push(v(DUP_TABLE, &[Loc::D(1 + i), Loc::D(1 + j)]));
                    }
                }
                t.push((s, name));
            }
        }
        // columns of two tables
        2 => {
            let mut x = tab("x", vec![]);
            let mut y = tab("y", vec![]);
            let c = [nb(&[l(), l()]), nb(&[l(), l()]), nb(&[l(), l()])];
            for n in &c {
                x.m.push(Member::C(Col { n: n.clone(), t: ty("int"), set: None }));
            }
            y.m.push(Member::C(Col { n: c[0].clone(), t: ty("int"), set: None }));
            for i in 0..3 {
                for j in 0..i {
                    if same(&c[i], &c[j]) {
                        vs.push(v(DUP_COL, &[Loc::Col(1, i), Loc::Col(1, j)]));
                    }
                }
            }
            d.push(Decl::T(x));
            d.push(Decl::T(y));
        }
        // enums
        3 => {
            let mut t: Vec<(Option<Nm>, Nm)> = Vec::new();
            for i in 0..3 {
                let s = schema(pick(3));
                let name = n1("e");
                let mut x = en("x", &["a"]);
                x.s = s.clone();
                x.n = name.clone();
                d.push(Decl::E(x));
                for (j, y) in t.iter().enumerate() {
                    if same(&y.1, &name) && same_schema(&y.0, &s) {
                        vs.push(v(DUP_ENUM, &[Loc::D(1 + i), Loc::D(1 + j)]));
                    }
                }
                t.push((s, name));
            }
        }
        // enum values of two enums
        4 => {
            let c = [nb(&[l(), l()]), nb(&[l(), l()]), Nm { b: vec![l(), l()], q: true }];
            let mut x = en("x", &[]);
            for n in &c {
                x.v.push((n.clone(), None));
            }
            let mut y = en("y", &[]);
            y.v.push((c[1].clone(), None));
            for i in 0..3 {
                for j in 0..i {
                    if same(&c[i], &c[j]) {
                        vs.push(v(DUP_EVAL, &[Loc::Val(1, i), Loc::Val(1, j)]));
                    }
                }
            }
            d.push(Decl::E(x));
            d.push(Decl::E(y));
        }
        // groups
        5 => {
            d.push(Decl::T(tab("t", vec![col("a", "int")])));
            let c = [n1("g"), n1("g"), n1("g")];
            for i in 0..3 {
                let mut g = gr("x", &["t"]);
                g.n = c[i].clone();
                d.push(Decl::G(g));
                for j in 0..i {
                    if same(&c[i], &c[j]) {
                        vs.push(v(DUP_GROUP, &[Loc::D(2 + i), Loc::D(2 + j)]));
                    }
                }
            }
        }
        // aliases
        6 => {
            let c = [nb(&[l(), l()]), nb(&[l(), l()]), nb(&[l()])];
            let sc = pick(3);
            for i in 0..3 {
                let mut t = tab(["table_one", "table_two", "table_three"][i], vec![col("a", "int")]);
                t.alias = Some(c[i].clone());
                if i == 1 {
                    t.s = schema(sc);
                }
                d.push(Decl::T(t));
                for j in 0..i {
                    if same(&c[i], &c[j]) {
                        vs.push(v(DUP_ALIAS, &[Loc::D(1 + i), Loc::D(1 + j)]));
                    }
                }
            }
        }
        // one name for a table, an enum, a group, a column, a value and a reference: never a clash
        7 => {
            let n = nb(&[l(), l()]);
            let mut t = tab("x", vec![]);
            t.n = n.clone();
            t.m.push(Member::C(Col { n: n.clone(), t: ty("int"), set: Some(vec![sa("pk")]) }));
            let mut e = en("x", &[]);
            e.n = n.clone();
            e.v.push((n.clone(), None));
            let mut g = gr("x", &[]);
            g.n = n.clone();
            g.items.push(Ok((None, n.clone())));
            let mut t2 = tab("x", vec![]);
            t2.s = Some(n.clone());
            t2.n = n.clone();
            t2.m.push(Member::C(Col { n: n.clone(), t: ty("int"), set: None }));
            d.push(Decl::T(t));
            d.push(Decl::E(e));
            d.push(Decl::G(g));
            d.push(Decl::T(t2));
        }
        // a name and the same name with one more character: never a clash
        9 => {
            let n = nb(&[l()]);
            let m = if flag() { nb(&[n.b[0], l()]) } else { nb(&[l(), n.b[0]]) };
            match pick(6) {
                0 => {
                    for n in [&n, &m] {
                        let mut x = tab("x", vec![col("a", "int")]);
                        x.n = n.clone();
                        d.push(Decl::T(x));
                    }
                }
                1 => {
                    let mut x = tab("x", vec![]);
                    x.m = [n, m].into_iter().map(|n| Member::C(Col { n, t: ty("int"), set: None })).collect();
                    d.push(Decl::T(x));
                }
                2 => {
                    for n in [&m, &n] {
                        let mut x = en("x", &["a"]);
                        x.n = n.clone();
                        d.push(Decl::E(x));
                    }
                }
                3 => {
                    let mut x = en("x", &[]);
                    x.v = vec![(n, None), (m, None)];
                    d.push(Decl::E(x));
                }
                4 => {
                    d.push(Decl::T(tab("t", vec![col("a", "int")])));
                    for n in [&n, &m] {
                        let mut x = gr("x", &["t"]);
                        x.n = n.clone();
                        d.push(Decl::G(x));
                    }
                }
                _ => {
                    for (i, n) in [&m, &n].into_iter().enumerate() {
                        let mut x = tab(["table_one", "table_two"][i], vec![col("a", "int")]);
                        x.alias = Some(n.clone());
                        d.push(Decl::T(x));
                    }
                }
            }
        }
        // schema and name that read the same when joined: never a clash
        10 => {
            let (a, b) = joined();
            if flag() {
                for (s, n) in [a, b] {
                    let mut x = tab("x", vec![col("a", "int")]);
                    x.s = Some(s);
                    x.n = n;
                    d.push(Decl::T(x));
                }
            } else {
                for (s, n) in [a, b] {
                    let mut x = en("x", &["a"]);
                    x.s = Some(s);
                    x.n = n;
                    d.push(Decl::E(x));
                }
            }
        }
        // longer names that differ in one place, or in length only
        _ => {
            let mut a = b"a_rather_long_identifier_0123456789".to_vec();
            let mut b = a.clone();
            let i = [0, 17, 34][pick(3) as usize];
            a[i] = l();
            b[i] = byte(b'A', b'Z') | (byte(0, 1) << 5);
            if flag() {
                b.push(b'x');
            }
            let (a, b) = (nb(&a), nb(&b));
            let dup = same(&a, &b);
            match pick(3) {
                0 => {
                    let mut x = tab("x", vec![]);
                    x.m.push(Member::C(Col { n: a, t: ty("int"), set: None }));
                    x.m.push(Member::C(Col { n: b, t: ty("int"), set: None }));
                    d.push(Decl::T(x));
                    if dup {
                        vs.push(v(DUP_COL, &[Loc::D(1)]));
                    }
                }
                1 => {
                    for n in [a, b] {
                        let mut x = tab("x", vec![col("a", "int")]);
                        x.n = n;
                        d.push(Decl::T(x));
                    }
                    if dup {
                        vs.push(v(DUP_TABLE, &[Loc::D(1), Loc::D(2)]));
                    }
                }
                _ => {
                    let mut x = en("x", &[]);
                    x.v.push((a, None));
                    x.v.push((b, None));
                    d.push(Decl::E(x));
                    if dup {
                        vs.push(v(DUP_EVAL, &[Loc::D(1)]));
                    }
                }
            }
        }
    }
    Case { d, v: vs }
}
pub const N_NAMES: u64 = 11;

// ---------------------------------------------------------------- C15
#[inline(never)]
pub fn projects(k: u64) -> Case {
    let mut vs = Vec::new();
    let mut d = Vec::new();
    match k {
        // how many, and where
        0 => {
            let mut n = 0;
            for i in 0..3 {
                match i {
                    0 => {}
                    1 => d.push(Decl::T(tab("t", vec![col("a", "int")]))),
                    _ => d.push(Decl::E(en("e", &["v"]))),
                }
                for _ in 0..pick(3) {
                    let mut p = pr("x");
                    p.n = n1("p");
                    d.push(Decl::P(p));
                    n += 1;
                }
            }
            if n == 0 {
                vs.push(v(NO_PROJ, &[Loc::Doc]));
            }
            if n > 1 {
                vs.push(v(DUP_PROJ, &[Loc::Doc]));
            }
        }
        // property keys
        1 | 2 => {
            let n = if k == 1 { 2 + pick(2) } else { 4 };
            let mut p = pr("p");
            let mut keys: Vec<Nm> = Vec::new();
            for i in 0..n {
                let key = if k == 1 { nb(&[l(), l(), l()]) } else { n1(["k_", "k ", "key", "k_"][i as usize]) };
                let val = match pick(if k == 1 { 3 } else { 1 }) {
                    0 => s1("x"),
                    1 => int(7),
                    _ => bare("word"),
                };
                for x in &keys {
                    if same(x, &key) {
                        vs.push(v(DUP_PROP, &[Loc::D(0)]));
                    }
                }
                p.m.push(Ok((key.b.clone(), val)));
                keys.push(key);
            }
            d.push(Decl::P(p));
            d.push(Decl::T(tab("t", vec![col("a", "int")])));
        }
        // the well-known keys
        _ => {
            let ks = ["database_type", "note", "Note", "Database_type", "name"];
            let mut p = pr("p");
            let mut used = Vec::new();
            for _ in 0..3 {
                let i = pick(6) as usize;
                if i == 5 {
                    p.m.push(Err(Note { form: pick(2), l: s1("n") }));
                    continue;
                }
                // `note: 'x'` is a note declaration, not a property
                if i == 1 || i == 2 {
                    p.m.push(Ok((ks[i].as_bytes().to_vec(), int(1))));
                } else {
                    p.m.push(Ok((ks[i].as_bytes().to_vec(), s1("PostgreSQL"))));
                }
                if used.contains(&i) {
                    vs.push(v(DUP_PROP, &[Loc::D(0)]));
                }
                used.push(i);
            }
            d.push(Decl::P(p));
        }
    }
    Case { d, v: vs }
}
pub const N_PROJECTS: u64 = 4;

// ---------------------------------------------------------------- C16
#[inline(never)]
fn keys(k: u32, n: usize) -> (Vec<At>, bool) {
    let mut out: Vec<At> = Vec::new();
    let mut dup = false;
    for i in 0..n {
        let (key, v) = match k {
            0 => {
                let b = vec![l(), l(), l()];
                // `ref` is not an ordinary key
                assume(!((b[0] == b'r') & (b[1] == b'e') & (b[2] == b'f')));
                (b, if i % 2 == 0 { Some(s1("v")) } else { None })
            }
            _ => {
                let ks = ["note", "name", "x y", "type2", "Note", "unique2"];
                (ks[pick(6) as usize].as_bytes().to_vec(), Some(if i == 1 { s1("w") } else { s1("v") }))
            }
        };
        for (y, _) in &out {
            if y.len() == key.len() && y == &key {
                dup = true;
            }
        }
        out.push((key, v));
    }
    (out, dup)
}
/// k: which list (0..6), +6: well-known keys; +12: four keys
#[inline(never)]
pub fn settings(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let kind = (k / 6) as u32;
    let (a, dup) = if kind == 2 { keys(0, 4) } else { keys(kind, 3) };
    let mut t = tab("t", vec![cols("a", "int", vec![sa("unique")]), col("b", "int")]);
    let mut e = en("e", &["x", "y", "z"]);
    let mut r = rf(end("t", "b"), 1, end("t", "a"));
    let mut g = gr("g", &["t"]);
    let at;
    match k % 6 {
        0 => {
            t.set = Some(a);
            at = Loc::D(1);
        }
        1 => {
            let mut s: Vec<Set> = a.into_iter().map(Set::A).collect();
            if flag() {
                s.insert(1, Set::Ref(1, end("t", "a")));
            }
            t.m.push(Member::C(cols("c", "int", s)));
            at = Loc::Col(1, 2);
        }
        2 => {
            let i = pick(3) as usize;
            e.v[i].1 = Some(a);
            at = Loc::Val(2, i);
        }
        3 => {
            let mut x = vec![ix(&["b"], None), ix(&["a", "b"], None)];
            let i = pick(2) as usize;
            x[i].set = Some(a);
            t.m.push(Member::I(x));
            at = Loc::Idx(1, i);
        }
        4 => {
            r.set = Some(a);
            at = Loc::D(3);
        }
        _ => {
            g.set = Some(a);
            at = Loc::D(4);
        }
    }
    if dup {
        vs.push(v(DUP_ATTR, &[at]));
    }
    d.push(Decl::T(t));
    d.push(Decl::E(e));
    d.push(Decl::R(r));
    d.push(Decl::G(g));
    Case { d, v: vs }
}
pub const N_SETTINGS: u64 = 12;
/// the same key in different lists, the keys with a meaning, and several inline references
#[inline(never)]
pub fn settings2(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let ks = ["pk", "unique", "null", "not null", "increment", "note", "default", "primary key"];
    let mut t = tab("t", vec![cols("a", "int", vec![sa("unique"), sv("note", s1("n"))]), cols("b", "int", vec![sa("unique"), sv("note", s1("n"))])]);
    let mut s = Vec::new();
    let mut used = Vec::new();
    let mut dup = false;
    for _ in 0..3 {
        let i = pick(8) as usize;
        dup |= used.contains(&i);
        used.push(i);
        s.push(match i {
            5 => sv(ks[i], s1("x")),
            6 => sv(ks[i], int(1)),
            _ => sa(ks[i]),
        });
    }
    let pk = used.contains(&0) || used.contains(&7);
    if dup {
        vs.push(v(DUP_ATTR, &[Loc::Col(1, 2)]));
    }
    if used.contains(&2) && used.contains(&3) {
        vs.push(v(NULL_CONF, &[Loc::Col(1, 2)]));
    }
    // the last nullability setting counts
    if pk && used.iter().rfind(|&&i| i == 2 || i == 3) == Some(&2) {
        vs.push(v(NULL_PK, &[Loc::Col(1, 2)]));
    }
    if k == 1 {
        s.insert(1, Set::Ref(2, end("t", "a")));
        s.push(Set::Ref(2, end("t", "b")));
    }
    t.m.push(Member::C(cols("c", "int", s)));
    d.push(Decl::T(t));
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C17
/// tables, schemas, aliases and one reference whose one endpoint is arbitrary
#[inline(never)]
pub fn resolve(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    // t1 in public, t2 in schema sX, t3 with alias
    let key = |n: Nm| Member::C(Col { n, t: ty("int"), set: Some(vec![sa("unique")]) });
    let mut tabs: Vec<Tab> = Vec::new();
    let a = n1("t");
    let b = n1("t");
    let sb = n1("s");
    let alias = n1("t");
    let form = (k % 3) as u32;
    let shape = k / 3;
    // alias must not be the name of a table
    assume(!same(&alias, &a));
    let mut t = tab("x", vec![]);
    t.n = a.clone();
    t.m.push(key(nm("id")));
    t.m.push(key(nm("ad")));
    if shape == 1 {
        t.s = Some(nm("public"));
    }
    tabs.push(t);
    let mut t = tab("x", vec![]);
    t.n = b.clone();
    t.s = Some(sb.clone());
    t.alias = Some(alias.clone());
    t.m.push(key(nm("id")));
    t.m.push(key(nm("ce")));
    tabs.push(t);
    // the arbitrary endpoint
    let es = match pick(3) {
        0 => None,
        1 => Some(n1("s")),
        _ => Some(nm("public")),
    };
    let et = n1("t");
    let ec = if flag() { nm("id") } else { nb(&[l(), b'd']) };
    // what the endpoint means
    let (rs, rt) = match &es {
        Some(s) => (Some(s.clone()), et.clone()),
        None => {
            if same(&et, &a) {
                (None, et.clone())
            } else if same(&et, &alias) {
                (Some(sb.clone()), b.clone())
            } else {
                (None, et.clone())
            }
        }
    };
    let from = Nm { b: b"from".to_vec(), q: false };
    let mut f = tab("from", vec![cols("x", "int", vec![sa("unique")])]);
    assume(!same(&et, &from));
    let e = End { s: es.clone(), t: et.clone(), c: vec![ec.clone()], paren: false };
    let at = match form {
        0 => {
            if let Member::C(c) = &mut f.m[0] {
                c.set.as_mut().unwrap().push(Set::Ref(2, e.clone()));
            }
            Loc::Col(3, 0)
        }
        1 => Loc::End(4, true),
        _ => Loc::End(4, false),
    };
    let tgt = tabs.iter().find(|t| same(&t.n, &rt) && same_schema(&t.s, &rs));
    match tgt {
        None => {
            // a table name that exists nowhere in that schema
            let known = same_schema(&rs, &None) || same(rs.as_ref().unwrap_or(&from), &sb);
            vs.push(v(if known { NO_TABLE } else { NO_SCHEMA }, &[at]));
        }
        Some(t) => {
            let ok = t.m.iter().any(|m| matches!(m, Member::C(c) if same(&c.n, &ec)));
            if !ok {
                vs.push(v(NO_COL, &[at]));
            }
        }
    }
    for t in tabs {
        d.push(Decl::T(t));
    }
    d.push(Decl::T(f));
    match form {
        0 => {}
        1 => d.push(Decl::R(rf(end("from", "x"), 2, e))),
        _ => d.push(Decl::R(rf(e, 2, end("from", "x")))),
    }
    Case { d, v: vs }
}
pub const N_RESOLVE: u64 = 6;
/// composite references: column counts and column names
#[inline(never)]
pub fn resolve_comp(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let mk = |n: &str, s: Option<Nm>, alias: Option<Nm>| {
        let mut t = tab(n, vec![col("a", "int"), col("b", "int"), col("c", "int")]);
        t.m.push(Member::I(vec![ix(&["a", "b"], Some(vec![at("unique", None)])), ix(&["b", "c"], Some(vec![at("unique", None)])), ix(&["a", "b", "c"], Some(vec![at("unique", None)])), ix(&["a", "c"], Some(vec![at("unique", None)])), ix(&["a"], Some(vec![at("unique", None)])), ix(&["b"], Some(vec![at("unique", None)])), ix(&["c"], Some(vec![at("unique", None)]))]));
        t.s = s;
        t.alias = alias;
        Decl::T(t)
    };
    d.push(mk("t", None, None));
    d.push(mk("u", Some(nm("s")), Some(nm("al"))));
    let side = |n: u32, sym: bool| {
        let base = [b'a', b'b', b'c'];
        let mut v: Vec<Nm> = Vec::new();
        for i in 0..n as usize {
            v.push(if sym && i + 1 == n as usize { nb(&[byte(b'a', b'f')]) } else { nb(&[base[i]]) });
        }
        v
    };
    let nl = 1 + pick(3);
    let nr = 1 + pick(3);
    let sym_l = k == 1;
    let (cl, cr) = (side(nl, sym_l), side(nr, !sym_l));
    // repeated columns are not of interest here
    for c in [&cl, &cr] {
        for i in 0..c.len() {
            for j in 0..i {
                assume(c[i].b[0] != c[j].b[0]);
            }
        }
    }
    let missing = cl.iter().chain(cr.iter()).any(|c| c.b[0] > b'c');
    let le = End { s: None, t: nm("t"), c: cl, paren: flag() };
    let re = if flag() { End { s: Some(nm("s")), t: nm("u"), c: cr, paren: false } } else { End { s: None, t: nm("al"), c: cr, paren: false } };
    if nl != nr {
        vs.push(v(FK_LEN, &[Loc::D(3)]));
    } else if missing {
        vs.push(v(NO_COL, &[Loc::End(3, k == 0)]));
    }
    d.push(Decl::R(rf(le, pick(4), re)));
    Case { d, v: vs }
}
/// references when nothing is declared in the default schema, and names that are prefixes of each other
#[inline(never)]
pub fn resolve_misc(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    match k {
        0 => {
            let mut t = tab("t", vec![cols("a", "int", vec![sa("pk")]), cols("b", "int", vec![sa("unique")])]);
            t.s = Some(nm("s"));
            d.push(Decl::T(t));
            let es = match pick(4) {
                0 => None,
                1 => Some(nm("s")),
                2 => Some(nm("public")),
                _ => Some(n1("")),
            };
            let ok = same_schema(&es, &Some(nm("s")));
            let e = End { s: es.clone(), t: nm("t"), c: vec![nm("a")], paren: false };
            if !ok {
                let mut x = v(NO_SCHEMA, &[Loc::End(2, true)]);
                vs.push(x.clone());
                x.m = NO_TABLE;
                vs.push(x);
            }
            d.push(Decl::R(rf(ends(Some("s"), "t", &["b"]), 1, e)));
        }
        1 => {
            // names of different length
            let t = tab("users", vec![cols("id", "int", vec![sa("pk")]), cols("idx", "int", vec![sa("unique")])]);
            d.push(Decl::T(t));
            let tn = ["users", "user", "userss", "Users", "\u{fc}sers"][pick(5) as usize];
            let cn = ["id", "i", "idx", "ID", "idxx", "x"][pick(6) as usize];
            let tq = if pick(2) == 1 { nq(tn) } else { nm(tn) };
            assume(tq.q || tn.is_ascii());
            let e = End { s: None, t: tq, c: vec![nq(cn)], paren: flag() };
            if tn != "users" {
                vs.push(v(NO_TABLE, &[Loc::End(2, true)]));
            } else if cn != "id" && cn != "idx" {
                vs.push(v(NO_COL, &[Loc::End(2, true)]));
            }
            d.push(Decl::R(rf(end("users", "idx"), 2, e)));
            if tn == "users" && cn == "idx" {
                // a column referencing itself: left to other scenarios
                assume(false);
            }
        }
        3 => {
            // names that read the same as existing ones when joined
            let ((s1_, t1), (s2, t2)) = joined();
            let mut t = tab("x", vec![cols("a", "int", vec![sa("pk")])]);
            t.s = Some(s1_.clone());
            t.n = t1.clone();
            d.push(Decl::T(t));
            d.push(Decl::T(tab("w", vec![cols("y", "int", vec![sa("unique")])])));
            let ok = flag();
            let (s, t) = if ok { (s1_, t1) } else { (s2, t2) };
            if !ok {
                vs.push(v(NO_SCHEMA, &[Loc::End(3, true)]));
                vs.push(v(NO_TABLE, &[Loc::End(3, true)]));
            }
            d.push(Decl::R(rf(end("w", "y"), 2, End { s: Some(s), t, c: vec![nm("a")], paren: false })));
        }
        _ => {
            // an alias of a table in another schema next to a table with the alias's name in a third schema
            let mut t = tab("t", vec![cols("a", "int", vec![sa("pk")])]);
            t.s = Some(nm("s"));
            t.alias = Some(nm("al"));
            let mut u = tab("al", vec![cols("z", "int", vec![sa("pk")])]);
            u.s = Some(nm("r"));
            let w = tab("w", vec![cols("y", "int", vec![sa("unique")])]);
            d.push(Decl::T(t));
            d.push(Decl::T(u));
            d.push(Decl::T(w));
            let es = [None, Some("s"), Some("r"), Some("public")][pick(4) as usize];
            let et = ["al", "t"][pick(2) as usize];
            let ec = ["a", "z"][pick(2) as usize];
            let tgt = match (es, et) {
                (None, "al") | (Some("s"), "t") => Some("a"),
                (Some("r"), "al") => Some("z"),
                _ => None,
            };
            if tgt != Some(ec) {
                vs.push(v(if tgt.is_none() { NO_TABLE } else { NO_COL }, &[Loc::End(4, true)]));
            }
            d.push(Decl::R(rf(end("w", "y"), 2, ends(es, et, &[ec]))));
        }
    }
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C18
/// built-in types: spelling and canonical number
/// the member a type name denotes
pub fn type_of(c: u8) -> ColumnTypeName {
    use ColumnTypeName::*;
    match c {
        1 => Bit,
        2 => Varbit,
        3 => Char,
        4 => VarChar,
        5 => Box,
        6 => Cidr,
        7 => Circle,
        8 => Inet,
        9 => Line,
        10 => LineSegment,
        11 => MacAddr,
        12 => MacAddr8,
        13 => Money,
        14 => Path,
        15 => PGLongSequenceNumber,
        16 => PGSnapshot,
        17 => Point,
        18 => Polygon,
        19 => TSQuery,
        20 => TSVector,
        21 => SmallSerial,
        22 => Serial,
        23 => BigSerial,
        24 => SmallInt,
        25 => Integer,
        26 => BigInt,
        27 => Real,
        28 => DoublePrecision,
        29 => Bool,
        30 => ByteArray,
        31 => Date,
        32 => Text,
        33 => Time,
        34 => Timetz,
        35 => Timestamp,
        36 => Timestamptz,
        37 => Uuid,
        38 => Json,
        39 => Jsonb,
        40 => Decimal,
        41 => Xml,
        _ => Undef,
    }
}
pub const TYPES: &[(&str, u8)] = &[
    ("bit", 1),
    ("varbit", 2),
    ("bit varying", 2),
    ("char", 3),
    ("character", 3),
    ("varchar", 4),
    ("character varying", 4),
    ("box", 5),
    ("cidr", 6),
    ("circle", 7),
    ("inet", 8),
    ("line", 9),
    ("lseg", 10),
    ("macaddr", 11),
    ("macaddr8", 12),
    ("money", 13),
    ("path", 14),
    ("pg_lsn", 15),
    ("pg_snapshot", 16),
    ("point", 17),
    ("polygon", 18),
    ("tsquery", 19),
    ("tsvector", 20),
    ("smallserial", 21),
    ("serial2", 21),
    ("serial", 22),
    ("serial4", 22),
    ("bigserial", 23),
    ("serial8", 23),
    ("smallint", 24),
    ("int2", 24),
    ("integer", 25),
    ("int", 25),
    ("int4", 25),
    ("bigint", 26),
    ("int8", 26),
    ("real", 27),
    ("float4", 27),
    ("double precision", 28),
    ("float8", 28),
    ("bool", 29),
    ("boolean", 29),
    ("bytea", 30),
    ("date", 31),
    ("text", 32),
    ("time", 33),
    ("time without time zone", 33),
    ("timetz", 34),
    ("time with time zone", 34),
    ("timestamp", 35),
    ("timestamp without time zone", 35),
    ("timestamptz", 36),
    ("timestamp with time zone", 36),
    ("uuid", 37),
    ("json", 38),
    ("jsonb", 39),
    ("decimal", 40),
    ("numeric", 40),
    ("xml", 41),
];
/// 0: not a built-in type
#[inline(never)]
pub fn canon(b: &[u8]) -> u8 {
    for (t, c) in TYPES {
        if t.len() == b.len() && t.as_bytes() == b {
            return *c;
        }
    }
    0
}
/// a built-in type as it can be written
pub fn tyq(x: &str) -> Ty {
    let mut t = ty(x);
    t.q = x.as_bytes().contains(&b' ');
    t
}
fn fk(d: &mut Vec<Decl>, a: Ty, b: Ty, vs: &mut Vec<V>, eq: bool, form: u32) {
    let mut t = tab("t", vec![]);
    t.m.push(Member::C(Col { n: nm("a"), t: a, set: None }));
    let mut u = tab("u", vec![]);
    u.m.push(Member::C(Col { n: nm("b"), t: b, set: Some(vec![sa("unique")]) }));
    let at = match form {
        0 => {
            if let Member::C(c) = &mut t.m[0] {
                c.set = Some(vec![Set::Ref(1, end("u", "b"))]);
            }
            Loc::D(1)
        }
        _ => Loc::D(3),
    };
    d.push(Decl::T(t));
    d.push(Decl::T(u));
    match form {
        0 => {}
        1 => d.push(Decl::R(rf(end("t", "a"), 1, end("u", "b")))),
        _ => d.push(Decl::R(rf(end("u", "b"), 0, end("t", "a")))),
    }
    if !eq {
        vs.push(vw(FK_TYPE, &[b"'a'", b"'b'"], &[at]));
    }
}
/// k < 16: an arbitrary type name of length k+2 against a built-in type; others: see below
#[inline(never)]
pub fn fktype(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    if k < 12 {
        let n = k as usize + 1;
        let mut b = Vec::new();
        for i in 0..n {
            // long names: letters, except the last character
            b.push(if i == 0 || (n > 6 && i + 1 < n) { l() } else { byte(b'0', b'z') });
        }
        // letters, digits, underscore
        for x in &b[1..] {
            let x = *x;
            assume(((x >= b'0') & (x <= b'9')) | (x == b'_') | ((x >= b'a') & (x <= b'z')));
        }
        let other = if n > 8 { "timestamptz" } else { ["int4", "timestamptz", "bool", "varchar", "e"][pick(5) as usize] };
        let c = canon(&b);
        let eq = if other == "e" { b.len() == 1 && b[0] == b'e' } else { c == canon(other.as_bytes()) };
        fk(&mut d, tyb(&b), tyq(other), &mut vs, eq, 1);
    } else if k < 13 {
        // all pairs of spellings
        let i = pick(TYPES.len() as u32) as usize;
        let j = pick(TYPES.len() as u32) as usize;
        fk(&mut d, tyq(TYPES[i].0), tyq(TYPES[j].0), &mut vs, TYPES[i].1 == TYPES[j].1, pick(2));
    } else if k < 14 {
        // arguments
        let mk = |i: u32| {
            let mut t = ty(["varchar", "decimal", "char"][i as usize / 4]);
            let n = |a: u8| Lit::Raw(vec![a], Value::Integer((a - b'0') as i64));
            t.args = match (i / 4, i % 4) {
                (_, 0) => None,
                (1, 1) => Some(vec![n(byte(b'0', b'9')), n(byte(b'0', b'9'))]),
                (1, 2) => Some(vec![n(byte(b'0', b'9')), n(b'2')]),
                (1, _) => Some(vec![n(b'2'), n(b'3')]),
                (_, 1) => Some(vec![n(byte(b'0', b'9'))]),
                (_, 2) => Some(vec![n(b'7')]),
                (_, _) => Some(vec![n(byte(b'0', b'4'))]),
            };
            t
        };
        let (i, j) = (pick(12), pick(12));
        let (a, b) = (mk(i), mk(j));
        let same_args = match (&a.args, &b.args) {
            (None, None) => true,
            (Some(x), Some(y)) => {
                x.len() == y.len() && {
                    let mut r = true;
                    for q in 0..x.len() {
                        if let (Lit::Raw(m, _), Lit::Raw(n, _)) = (&x[q], &y[q]) {
                            r = r & (m[0] == n[0]);
                        }
                    }
                    r
                }
            }
            _ => false,
        };
        let eq = i / 4 == j / 4 && same_args;
        fk(&mut d, a, b, &mut vs, eq, pick(3));
    } else if k < 15 {
        // array dimensions
        let dim = || match pick(3) {
            0 => None,
            1 => Some(pick(2)),
            _ => Some(255 + pick(2)),
        };
        let mk = || {
            let mut t = tyq(["int", "character varying"][pick(2) as usize]);
            for _ in 0..pick(3) {
                t.arrays.push(dim());
            }
            t.arrays_in = t.q;
            t
        };
        let (a, b) = (mk(), mk());
        let eq = a.name == b.name && a.arrays == b.arrays;
        fk(&mut d, a, b, &mut vs, eq, 1);
    } else if k < 16 {
        // enums: name and schema
        let mk = || {
            let mut t = tyb(&[b'e', l()]);
            t.schema = schema(pick(3));
            t
        };
        let (a, b) = (mk(), mk());
        let eq = a.name == b.name && same_schema(&a.schema, &b.schema);
        fk(&mut d, a, b, &mut vs, eq, pick(2));
    } else {
        // composite: the types of the second or third pair decide
        let n = 2 + pick(2) as usize;
        let pos = pick(n as u32) as usize;
        let how = pick(4);
        let (x, y) = match how {
            0 => (["int", "text", "int4", "varchar"][pick(4) as usize], ["int", "text", "integer", "varchar"][pick(4) as usize]),
            3 => ("numeric", "decimal"),
            _ => ("int4", "int"),
        };
        let mut shape = Vec::new();
        let mut mk = |name: &str, p: usize, x: &str| {
            let mut t = tab(name, vec![]);
            let c = ["a", "b", "c"];
            for i in 0..n {
                let mut y = col(c[i], if i == p { x } else { "uuid" });
                if i == p {
                    match how {
                        0 => {}
                        1 => y.t.arrays = vec![None, Some(2 + pick(2))],
                        2 => y.t.arrays = vec![None; pick(3) as usize],
                        _ => y.t.args = Some(vec![int(7), int(8 + pick(2) as i64)]),
                    }
                    shape.push((y.t.arrays.clone(), y.t.args.as_ref().map(|a| a.iter().map(|l| l.shown()).collect::<Vec<_>>())));
                }
                t.m.push(Member::C(y));
            }
            t.m.push(Member::I(vec![ix(&c[..n], Some(vec![at(if how == 0 { "pk" } else { "unique" }, None)]))]));
            Decl::T(t)
        };
        d.push(mk("t", pos, x));
        d.push(mk("u", pos, y));
        let c = ["a", "b", "c"];
        d.push(Decl::R(rf(ends(None, "t", &c[..n]), pick(4), ends(None, "u", &c[..n]))));
        if canon(x.as_bytes()) != canon(y.as_bytes()) || shape[0] != shape[1] {
            vs.push(v(FK_TYPE, &[Loc::D(3)]));
        }
    }
    Case { d, v: vs }
}
pub const N_FKTYPE: u64 = 17;

// ---------------------------------------------------------------- C19
/// adds key kind `k` for column(s) c to the table; true if the columns are a key
#[inline(never)]
fn add_key(t: &mut Tab, k: u32) -> bool {
    let set = |t: &mut Tab, i: usize, s: Set| {
        if let Member::C(c) = &mut t.m[i] {
            c.set.get_or_insert_with(Vec::new).push(s);
        }
    };
    let u = || Some(vec![at("unique", None)]);
    let p = || Some(vec![at("pk", None)]);
    match k {
        0 => false,
        1 => {
            set(t, 0, sa("pk"));
            true
        }
        2 => {
            set(t, 0, sa("unique"));
            true
        }
        3 => {
            set(t, 0, sa("primary key"));
            true
        }
        4 => {
            t.m.push(Member::I(vec![ix(&["b"], None), ix(&["a"], p())]));
            true
        }
        5 => {
            t.m.push(Member::I(vec![ix(&["a"], u())]));
            true
        }
        6 => {
            t.m.push(Member::I(vec![ix(&["a"], None)]));
            false
        }
        7 => {
            t.m.push(Member::I(vec![ix(&["a", "b"], u())]));
            false
        }
        8 => {
            t.m.push(Member::I(vec![ix(&["a"], Some(vec![at("type", Some(bare("btree")))]))]));
            false
        }
        9 => {
            set(t, 1, sa("pk"));
            false
        }
        10 => {
            set(t, 0, sa("not null"));
            set(t, 0, sa("increment"));
            set(t, 0, sv("note", s1("unique")));
            false
        }
        11 => {
            let mut x = ix(&["a"], u());
            x.paren = true;
            t.m.push(Member::I(vec![x]));
            true
        }
        13 => {
            let s = vec![at("name", Some(s1("k"))), at("note", Some(s1("n"))), at("unique", None), at("other", Some(int(1)))];
            t.m.push(Member::I(vec![ix(&["b"], u()), ix(&["a"], Some(s))]));
            true
        }
        _ => {
            // an expression over the column is not the column
            t.m.push(Member::I(vec![IxDef { c: vec![Ix::E(b"a".to_vec())], paren: false, set: u() }]));
            false
        }
    }
}
/// the side that has to be a key, or the reference
fn side(i: usize, r: u32) -> Loc {
    match r {
        0 => Loc::End(i, false),
        1 => Loc::End(i, true),
        _ => Loc::D(i),
    }
}
fn req(r: u32, a: bool, b: bool) -> bool {
    match r {
        0 => a,
        1 => b,
        2 => a || b,
        _ => a && b,
    }
}
/// k: form (inline, left-right, block, self)
#[inline(never)]
pub fn keys1(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let words = |r: u32| -> &'static [u8] {
        match r {
            0 | 1 => b"neither a primary key or a unique key",
            2 => b"one-to-one",
            _ => b"many-to-many",
        }
    };
    let r = pick(4);
    if k == 4 {
        // two references of one column
        let r2 = pick(4);
        // two that both start many-to-one here conflict
        assume(r != 1 || r2 != 1);
        let mut t = tab("t", vec![col("a", "int"), col("b", "int")]);
        let a = add_key(&mut t, pick(14));
        let keys = [flag(), flag()];
        let one = |n: &str, k: bool| if k { cols(n, "int", vec![sa("unique")]) } else { col(n, "int") };
        if let Member::C(c) = &mut t.m[0] {
            let v = c.set.get_or_insert_with(Vec::new);
            v.push(Set::Ref(r, end("u", "a")));
            v.push(Set::Ref(r2, end("u", "b")));
        }
        for (r, b) in [(r, keys[0]), (r2, keys[1])] {
            if !req(r, a, b) {
                vs.push(vw(FK_KEY, &[words(r)], &[Loc::Col(1, 0)]));
            }
        }
        d.push(Decl::T(t));
        d.push(Decl::T(tab("u", vec![one("a", keys[0]), one("b", keys[1])])));
        return Case { d, v: vs };
    }
    let (i, j) = (pick(14), pick(14));
    let mut t = tab("t", vec![col("a", "int"), col("b", "int")]);
    let mut u = tab("u", vec![col("a", "int"), col("b", "int")]);
    if k == 3 {
        u.s = Some(nm("s"));
        u.alias = Some(nm("z"));
    }
    let a = add_key(&mut t, i);
    let b = add_key(&mut u, j);
    let ok = req(r, a, b);
    let right = if k == 3 { end("z", "a") } else { end("u", "a") };
    let at = if k == 0 {
        if let Member::C(c) = &mut t.m[0] {
            c.set.get_or_insert_with(Vec::new).push(Set::Ref(r, right.clone()));
        }
        Loc::Col(1, 0)
    } else {
        side(3, r)
    };
    d.push(Decl::T(t));
    d.push(Decl::T(u));
    if k > 0 {
        let mut x = rf(end("t", "a"), r, right);
        x.block = k == 2;
        d.push(Decl::R(x));
    }
    if !ok {
        vs.push(vw(FK_KEY, &[words(r)], &[at]));
    }
    Case { d, v: vs }
}
/// composite keys; k 2: names that read the same when joined; 3: three to five columns
#[inline(never)]
pub fn keys2(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    if k == 4 {
        // expressions, and columns named twice, make no key of the others
        let mk = |n: &str| tab(n, vec![col("a", "int"), col("b", "int"), col("c", "int")]);
        let (x, mut y) = (mk("t"), mk("u"));
        let one = || if flag() { Ix::C(nb(&[byte(b'a', b'c')])) } else { Ix::E(vec![byte(b'a', b'c')]) };
        let key = vec![one(), one()];
        let fk: Vec<Nm> = (0..2).map(|_| nb(&[byte(b'a', b'c')])).collect();
        let has = |n: &Nm| key.iter().any(|i| matches!(i, Ix::C(m) if same(m, n)));
        let ok = fk.iter().all(has) && key.iter().all(|i| matches!(i, Ix::C(m) if fk.iter().any(|n| same(n, m))));
        y.m.push(Member::I(vec![IxDef { c: key, paren: true, set: Some(vec![at(if flag() { "unique" } else { "pk" }, None)]) }]));
        let right = flag();
        if !ok {
            vs.push(vw(FK_KEY, &[b"composite"], &[Loc::End(3, right)]));
        }
        d.push(Decl::T(x));
        d.push(Decl::T(y));
        let e = |t: &str, c: Vec<Nm>| End { s: None, t: nm(t), c, paren: true };
        let o = || vec![nm("a"), nm("b")];
        d.push(Decl::R(if right { rf(e("t", o()), 1, e("u", fk)) } else { rf(e("u", fk), 0, e("t", o())) }));
        return Case { d, v: vs };
    }
    if k > 1 {
        let mut x = tab("t", vec![]);
        let mut y = tab("u", vec![]);
        let (names, key, fk): (Vec<Nm>, Vec<usize>, Vec<usize>) = if k == 2 {
            let ((a, b), (c, e)) = joined();
            (vec![a, b, c, e], vec![0, 1], if flag() { vec![2, 3] } else { vec![1, 0] })
        } else {
            let n = 3 + pick(3) as usize;
            let names = (0..n + 1).map(|i| nb(&[b'c', b'0' + i as u8])).collect();
            let mut fk: Vec<usize> = (0..n).collect();
            fk.rotate_left(pick(n as u32) as usize);
            let i = pick(n as u32 + 1) as usize;
            if i < n {
                fk[i] = n;
            }
            (names, (0..n).collect(), fk)
        };
        for n in &names {
            x.m.push(Member::C(Col { n: n.clone(), t: ty("int"), set: None }));
            y.m.push(Member::C(Col { n: n.clone(), t: ty("int"), set: None }));
        }
        let of = |v: &[usize]| -> Vec<Nm> { v.iter().map(|i| names[*i].clone()).collect() };
        y.m.push(Member::I(vec![IxDef { c: of(&key).into_iter().map(Ix::C).collect(), paren: true, set: Some(vec![at("unique", None)]) }]));
        let right = flag();
        if !fk.iter().all(|i| key.contains(i)) {
            vs.push(vw(FK_KEY, &[b"composite"], &[Loc::End(3, right)]));
        }
        d.push(Decl::T(x));
        d.push(Decl::T(y));
        let e = |t: &str| End { s: None, t: nm(t), c: of(&fk), paren: true };
        d.push(Decl::R(if right { rf(e("t"), 1, e("u")) } else { rf(e("u"), 0, e("t")) }));
        return Case { d, v: vs };
    }
    let r = pick(4);
    let key = |t: &mut Tab, k: u32| -> bool {
        let u = || Some(vec![at("unique", None)]);
        let p = || Some(vec![at("pk", None)]);
        let (c, s, ok): (&[&str], _, bool) = match k {
            0 => return false,
            1 => (&["a", "b"], p(), true),
            2 => (&["b", "a"], u(), true),
            3 => (&["a", "b"], None, false),
            4 => (&["a", "b", "c"], u(), false),
            5 => (&["a", "c"], u(), false),
            6 => (&["a"], u(), false),
            7 => (&["a", "b"], Some(vec![at("name", Some(s1("k"))), at("unique", None)]), true),
            8 => (&["a", "b"], Some(vec![at("type", Some(bare("hash")))]), false),
            _ => {
                // two single keys are not a composite key
                t.m.push(Member::I(vec![ix(&["a"], u()), ix(&["b"], u())]));
                return false;
            }
        };
        let mut x = vec![ix(c, s)];
        if k == 2 {
            x.insert(0, ix(&["c"], u()));
        }
        t.m.push(Member::I(x));
        ok
    };
    let mk = |n: &str| tab(n, vec![col("a", "int"), col("b", "int"), col("c", "int")]);
    let (mut t, mut u) = (mk("t"), mk("u"));
    let a = key(&mut t, pick(10));
    let b = key(&mut u, pick(10));
    d.push(Decl::T(t));
    d.push(Decl::T(u));
    let (c1, c2): (&[&str], &[&str]) = if k == 0 { (&["a", "b"], &["a", "b"]) } else { (&["b", "a"], &["a", "b"]) };
    d.push(Decl::R(rf(ends(None, "t", c1), r, ends(None, "u", c2))));
    if !req(r, a, b) {
        vs.push(vw(FK_KEY, &[b"composite"], &[side(3, r)]));
    }
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C20
#[derive(Clone)]
struct Rl {
    r: u32,
    l: (u32, Vec<u8>),
    rr: (u32, Vec<u8>),
}
fn same_cols(a: &[u8], b: &[u8]) -> bool {
    a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x))
}
fn same_end(a: &(u32, Vec<u8>), b: &(u32, Vec<u8>)) -> bool {
    a.0 == b.0 && same_cols(&a.1, &b.1)
}
fn clash(a: &Rl, b: &Rl) -> bool {
    let many = |x: &Rl| match x.r {
        0 => Some(x.rr.clone()),
        1 => Some(x.l.clone()),
        _ => None,
    };
    match (many(a), many(b)) {
        (Some(x), Some(y)) => same_end(&x, &y),
        (None, None) => a.r == b.r && ((same_end(&a.l, &b.l) && same_end(&a.rr, &b.rr)) || (same_end(&a.l, &b.rr) && same_end(&a.rr, &b.l))),
        _ => false,
    }
}
/// many-to-one relations from columns that read the same when joined
fn relations_joined() -> Case {
    let ((a, b), (c, e)) = joined();
    let mut d = vec![proj()];
    let mut u = tab("u", vec![cols("a", "int", vec![sa("unique")]), col("b", "int")]);
    u.m.push(Member::I(vec![ix(&["a", "b"], Some(vec![at("unique", None)]))]));
    d.push(Decl::T(u));
    let x = |n: &Nm| Member::C(Col { n: n.clone(), t: ty("int"), set: None });
    let mut rest = Vec::new();
    if flag() {
        // table and column
        for (t, c) in [(a, b), (c, e)] {
            let mut y = tab("x", vec![]);
            y.n = t.clone();
            y.m.push(x(&c));
            d.push(Decl::T(y));
            rest.push(Decl::R(rf(End { s: None, t, c: vec![c], paren: false }, 1, end("u", "a"))));
        }
    } else {
        let mut y = tab("t", vec![]);
        for n in [&a, &b, &c, &e] {
            y.m.push(x(n));
        }
        d.push(Decl::T(y));
        for v in [vec![a, b], vec![c, e]] {
            rest.push(Decl::R(rf(End { s: None, t: nm("t"), c: v, paren: true }, 1, ends(None, "u", &["a", "b"]))));
        }
    }
    d.extend(rest);
    Case { d, v: Vec::new() }
}
/// k 0: two relations over two tables; 1: over three tables with aliases and schemas; 2: composite; 3: three relations;
/// 4, 5: like 1, 2 with every spelling of the first relation
#[inline(never)]
/// a name, settings, a block: none matters
fn dress(f: &mut Rf, how: u32) {
    match how {
        0 => {}
        1 => f.n = Some(nm("n")),
        2 => f.set = Some(vec![at("update", Some(bare("cascade")))]),
        3 => {
            f.n = Some(nm("m"));
            f.block = true;
            f.set = Some(vec![at("delete", Some(bare("set null"))), at("update", Some(bare("no action")))]);
        }
        4 => f.block = true,
        _ => {
            f.n = Some(nm("n"));
            f.set = Some(vec![at("color", Some(s1("x")))]);
        }
    }
}
pub fn relations(k: u64) -> Case {
    if k == 7 {
        return relations_joined();
    }
    let small = k == 6;
    let wide = k == 8;
    let dressed = k == 9;
    let k = if small { 1 } else if wide { 2 } else if dressed { 3 } else { k };
    let all = k > 3;
    let k = if all { k - 3 } else { k };
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let uq = || vec![sa("unique")];
    let mk = |n: &str| {
        if k != 2 {
            return tab(n, vec![cols("a", "int", uq()), cols("b", "int", uq())]);
        }
        if wide {
            let mut t = tab(n, ["a", "b", "c", "d", "e"].iter().map(|x| col(x, "int")).collect());
            t.m.push(Member::I([["a", "b", "c"], ["d", "b", "e"], ["a", "b", "e"]].iter().map(|x| ix(x, Some(vec![at("unique", None)]))).collect()));
            return t;
        }
        let mut t = tab(n, vec![col("a", "int"), col("b", "int"), col("c", "int")]);
        t.m.push(Member::I(vec![ix(&["a", "b"], Some(vec![at("unique", None)])), ix(&["a", "c"], Some(vec![at("unique", None)]))]));
        t
    };
    let mut tabs = vec![mk("t"), mk("u")];
    tabs[1].alias = Some(nm("ua"));
    if k == 1 {
        tabs.push(mk("w"));
        tabs[2].s = Some(nm("s"));
        tabs[2].alias = Some(nm("wa"));
    }
    // how table i is written
    let spell = |i: u32, how: u32, c: &[u8]| {
        let (s, t): (Option<&str>, &str) = match (i, how) {
            (0, 0) => (None, "t"),
            (0, _) => (Some("public"), "t"),
            (1, 0) => (None, "u"),
            (1, 1) => (None, "ua"),
            (1, _) => (Some("public"), "u"),
            (_, 0) => (Some("s"), "w"),
            (_, _) => (None, "wa"),
        };
        End { s: s.map(nm), t: nm(t), c: c.iter().map(|x| nb(&[*x])).collect(), paren: false }
    };
    let n = if k == 3 && !dressed { 3 } else { 2 };
    let mut rs: Vec<Rl> = Vec::new();
    let mut where_: Vec<usize> = Vec::new();
    let base = d.len() + tabs.len();
    for i in 0..n {
        let r = pick(4);
        let (lt, lc, rt, rc): (u32, Vec<u8>, u32, Vec<u8>) = match k {
            0 => (pick(2), vec![byte(b'a', b'b')], pick(2), vec![byte(b'a', b'b')]),
            1 if small => (pick(2), vec![b'a'], 2, vec![byte(b'a', b'b')]),
            1 => {
                let x = pick(3);
                (x, vec![b'a'], (x + 1 + pick(2)) % 3, vec![byte(b'a', b'b')])
            }
            2 if wide => {
                let cs: [&[u8]; 4] = [b"abc", b"dbe", b"cba", b"abe"];
                (0, cs[if i == 0 { 0 } else { pick(4) as usize }].to_vec(), 1, cs[pick(if i == 0 { 1 } else { 2 }) as usize].to_vec())
            }
            2 => {
                let cs: [&[u8]; 4] = [b"ab", b"ba", b"ac", b"ca"];
                (0, cs[if i == 0 && !all { 0 } else { pick(4) as usize }].to_vec(), 1, cs[pick(2) as usize].to_vec())
            }
            _ => (0, vec![byte(b'a', b'b')], 1, vec![byte(b'a', b'b')]),
        };
        let x = Rl { r, l: (lt, lc), rr: (rt, rc) };
        let (hl, hr) = match k {
            _ if i == 0 && !all => (0, 0),
            1 => (pick(2), pick(2)),
            2 if wide => (0, pick(2)),
            2 => (pick(2), pick(3)),
            _ => (0, 0),
        };
        let inline = (k == 0 || k == 3) && i == 1 && flag();
        if inline {
            let e = spell(x.rr.0, hr, &x.rr.1);
            if let Some(Member::C(c)) = tabs[x.l.0 as usize].m.iter_mut().find(|m| matches!(m, Member::C(c) if c.n.b[0] == x.l.1[0])) {
                c.set.as_mut().unwrap().push(Set::Ref(r, e));
            }
            where_.push(1 + x.l.0 as usize);
        } else {
            // swap the sides of the second relation in some variants
            let swap = (k == 1 || k == 2) && i == 1 && flag();
            let (a, b) = (spell(x.l.0, hl, &x.l.1), spell(x.rr.0, hr, &x.rr.1));
            where_.push(base + d.len() - 1);
            let mut f = if swap { rf(b, rel_flip(r), a) } else { rf(a, r, b) };
            if dressed {
                dress(&mut f, pick(6));
            }
            d.push(Decl::R(f));
        }
        rs.push(x);
    }
    for i in 0..n {
        for j in 0..i {
            if clash(&rs[i], &rs[j]) {
                vs.push(v(CONFLICT, &[Loc::D(where_[i]), Loc::D(where_[j])]));
            }
        }
    }
    let rest = d.split_off(1);
    for t in tabs {
        d.push(Decl::T(t));
    }
    d.extend(rest);
    Case { d, v: vs }
}
pub const N_RELATIONS: u64 = 4;

// ---------------------------------------------------------------- C21
#[inline(never)]
pub fn pks(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    if k == 2 {
        // any three settings of a column in any order
        let mut set = Vec::new();
        let (mut pk, mut null, mut not) = (false, false, false);
        let mut used: Vec<u32> = Vec::new();
        for _ in 0..3 {
            let i = pick(9);
            assume(!used.contains(&i));
            used.push(i);
            set.push(match i {
                0 => {
                    pk = true;
                    sa("pk")
                }
                1 => {
                    null = true;
                    sa("null")
                }
                2 => {
                    not = true;
                    sa("not null")
                }
                3 => sa("increment"),
                4 => sa("unique"),
                5 => sv("note", s1("n")),
                6 => sv("default", Lit::Bt(b"f()".to_vec())),
                7 => sa("other"),
                _ => {
                    pk = true;
                    sa("primary key")
                }
            });
        }
        let arr = flag();
        let mut c = cols("a", "int", set);
        if arr {
            c.t.arrays.push(None);
        }
        if null && not {
            vs.push(v(NULL_CONF, &[Loc::Col(1, 0)]));
        }
        if pk && null && !not {
            vs.push(v(NULL_PK, &[Loc::Col(1, 0)]));
        }
        if pk && arr {
            vs.push(v(ARR_PK, &[Loc::Col(1, 0)]));
        }
        d.push(Decl::T(tab("t", vec![c, col("b", "int")])));
        return Case { d, v: vs };
    }
    let mut t = tab("t", vec![]);
    let mut n_pk = 0;
    let mut at_pk: Vec<Loc> = Vec::new();
    let n = if k == 0 { 2 } else { 3 };
    for i in 0..n {
        let name = ["a", "b", "c"][i];
        let x = if k == 0 { pick(14) } else { pick(4) };
        let (s, pk, nul, nn): (Vec<Set>, bool, bool, bool) = match x {
            0 => (vec![], false, false, false),
            1 => (vec![sa("pk")], true, false, false),
            2 => (vec![sa("unique"), sa("primary key")], true, false, false),
            3 => (vec![sa("unique")], false, false, false),
            4 => (vec![sa("pk"), sa("null")], true, true, false),
            5 => (vec![sa("null"), sa("primary key")], true, true, false),
            6 => (vec![sa("not null"), sa("pk")], true, false, true),
            7 => (vec![sa("null"), sa("not null")], false, true, true),
            8 => (vec![sa("not null"), sv("note", s1("pk")), sa("null")], false, true, true),
            9 => (vec![sa("null"), sv("note", s1("not null"))], false, true, false),
            10 => (vec![sa("not null"), sv("x", bare("null"))], false, false, true),
            11 => (vec![sa("pk"), sa("primary key")], true, false, false),
            12 => (vec![sv("note", s1("x")), sa("increment"), sa("pk")], true, false, false),
            _ => (vec![sa("pk"), sa("null"), sa("not null")], true, true, true),
        };
        let mut c = cols(name, "int", s);
        let arr = if k == 0 { flag() } else { false };
        if arr {
            c.t.arrays.push(if i == 0 { None } else { Some(3) });
        }
        // two columns at most in the detailed variant: keep to one contradiction per column
        if pk {
            n_pk += 1;
            at_pk.push(Loc::Col(1, i));
            if arr {
                vs.push(v(ARR_PK, &[Loc::Col(1, i)]));
            }
            // `null` counts only if it is the last word on the matter, which is contradictory anyway
            if nul && !nn {
                vs.push(v(NULL_PK, &[Loc::Col(1, i)]));
            }
        }
        if nul && nn {
            vs.push(v(NULL_CONF, &[Loc::Col(1, i)]));
        }
        t.m.push(Member::C(c));
    }
    if k == 1 {
        let mut x = Vec::new();
        for _ in 0..2 {
            match pick(6) {
                0 => {}
                1 => x.push((ix(&["a"], Some(vec![at("pk", None)])), true)),
                2 => x.push((ix(&["b", "c"], Some(vec![at("name", Some(s1("pk"))), at("pk", None)])), true)),
                3 => x.push((IxDef { c: vec![Ix::E(vec![b'f', l()])], paren: flag(), set: Some(vec![at("pk", None)]) }, true)),
                4 => x.push((ix(&["c"], Some(vec![at("note", Some(s1("pk")))])), false)),
                _ => x.push((IxDef { c: vec![Ix::E(b"g(a)".to_vec()), Ix::C(nm("a"))], paren: true, set: Some(vec![at("pk", None)]) }, true)),
            }
        }
        for (i, (_, p)) in x.iter().enumerate() {
            if *p {
                n_pk += 1;
                at_pk.push(Loc::Idx(1, i));
            }
        }
        if !x.is_empty() {
            t.m.push(Member::I(x.into_iter().map(|x| x.0).collect()));
        }
    }
    if n_pk > 1 {
        vs.push(v(DUP_PK, &at_pk));
    }
    d.push(Decl::T(t));
    // a second table with its own key never matters
    d.push(Decl::T(tab("u", vec![cols("a", "int", vec![sa("pk")])])));
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C22
#[derive(Clone)]
struct Dx {
    c: Vec<Ix>,
    pk: bool,
    uniq: bool,
    ty: Option<u32>,
    set: bool,
}
fn ix_same(a: &[Ix], b: &[Ix]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Ix::C(x), Ix::C(y)) => same(x, y),
            (Ix::E(x), Ix::E(y)) => x.len() == y.len() && x == y,
            _ => false,
        })
}
fn ix_set(a: &[Ix], b: &[Ix]) -> bool {
    let sub = |a: &[Ix], b: &[Ix]| a.iter().all(|x| b.iter().any(|y| ix_same(core::slice::from_ref(x), core::slice::from_ref(y))));
    sub(a, b) && sub(b, a)
}
/// k: number of definitions - 1 and flavour
#[inline(never)]
pub fn idx(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    if k == 4 {
        // columns that read the same when joined
        let ((a, b), (c, e)) = joined();
        let mut t = tab("t", vec![]);
        for n in [&a, &b, &c, &e] {
            t.m.push(Member::C(Col { n: n.clone(), t: ty("int"), set: None }));
        }
        let set = match pick(3) {
            0 => None,
            1 => Some(vec![at("unique", None)]),
            _ => Some(vec![at("type", Some(bare("gin")))]),
        };
        let mut defs: Vec<IxDef> = [vec![a, b], vec![c, e]].into_iter().map(|v| IxDef { c: v.into_iter().map(Ix::C).collect(), paren: true, set: set.clone() }).collect();
        if flag() {
            defs.push(defs[0].clone());
            vs.push(v(if matches!(&set, Some(s) if &s[0].0[..] == b"unique") { DUP_UNIQ } else { DUP_IDX }, &[Loc::Idx(1, 2), Loc::Idx(1, 0)]));
        }
        t.m.push(Member::I(defs));
        d.push(Decl::T(t));
        return Case { d, v: vs };
    }
    let mut t = tab("t", vec![col("a", "int"), col("b", "int"), col("c", "int")]);
    let types = ["btree", "gin", "gist", "hash"];
    let n = if k == 0 { 1 } else if k == 5 { 3 } else { 2 };
    let mut all: Vec<Dx> = Vec::new();
    let mut defs = Vec::new();
    let col_unique = k != 0 && k != 3 && k != 5 && flag();
    if col_unique {
        if let Member::C(c) = &mut t.m[0] {
            c.set = Some(match pick(if k == 1 { 4 } else { 2 }) {
                0 => vec![sa("unique")],
                1 => vec![sv("note", s1("z")), sa("increment"), sa("unique"), sa("not null")],
                2 => vec![sa("pk"), sa("unique")],
                _ => vec![sa("unique"), sa("primary key")],
            });
        }
    }
    for i in 0..n {
        let c: Vec<Ix> = match k {
            0 => match pick(8) {
                0 => vec![],
                1 => vec![Ix::C(nb(&[l()]))],
                2 => vec![Ix::C(nm("a")), Ix::C(nb(&[l()]))],
                3 => vec![Ix::E(vec![l(), b'('])],
                4 => vec![Ix::E(b"x".to_vec()), Ix::C(nb(&[l()]))],
                5 => vec![Ix::C(nb(&[l(), l()]))],
                6 => vec![Ix::C(nm("a")), Ix::E(b"zz".to_vec()), Ix::C(nm("c"))],
                _ => vec![Ix::C(nm("c")), Ix::C(nm("b")), Ix::C(nb(&[l()]))],
            },
            3 => vec![Ix::E(vec![l()]), Ix::C(nm("a"))],
            5 => match pick(if i == 1 { 3 } else { 2 }) {
                0 => vec![Ix::C(nm("a"))],
                1 => vec![Ix::C(nm("a")), Ix::C(nm("b"))],
                _ => vec![Ix::C(nm("b"))],
            },
            _ => match pick(7) {
                0 => vec![Ix::C(nm("a"))],
                1 => vec![Ix::C(nm("b"))],
                2 => vec![Ix::C(nm("a")), Ix::C(nm("b"))],
                3 => vec![Ix::C(nm("b")), Ix::C(nm("a"))],
                4 => vec![Ix::E(vec![byte(b'a', b'c')])],
                5 => vec![Ix::C(nm("a")), Ix::E(b"a".to_vec())],
                _ => vec![Ix::C(nm("c")), Ix::C(nm("a")), Ix::C(nm("b"))],
            },
        };
        let nset = if k == 0 { 12 } else if k == 1 { 5 } else { 8 };
        let kind = if k == 5 { [2, 1, 0, 6][pick(if i == 0 || i == 3 { 3 } else { 4 }) as usize] } else { pick(nset) };
        let mut x = Dx { c: c.clone(), pk: false, uniq: false, ty: None, set: true };
        let mut s: Vec<At> = Vec::new();
        let mut ty_of = |x: &mut Dx, s: &mut Vec<At>, i: u32| {
            x.ty = Some(i);
            s.push(at("type", Some(bare(types[i as usize]))));
        };
        match kind {
            0 => x.set = false,
            1 => {
                x.uniq = true;
                s.push(at("unique", None))
            }
            2 => ty_of(&mut x, &mut s, 0),
            3 => ty_of(&mut x, &mut s, 3),
            4 => {
                s.push(at("name", Some(s1("n"))));
                s.push(at("unique", None));
                x.uniq = true
            }
            5 => {
                s.push(at("note", Some(s1("unique"))));
            }
            6 => {
                x.pk = true;
                s.push(at("pk", None))
            }
            7 => ty_of(&mut x, &mut s, 1),
            8 => {
                s.push(at("pk", None));
                s.push(at("unique", None));
                x.pk = true;
                x.uniq = true
            }
            9 => {
                s.push(at("unique", None));
                ty_of(&mut x, &mut s, 2);
                x.uniq = true
            }
            10 => {
                ty_of(&mut x, &mut s, 3);
                s.push(at("note", Some(s1("q"))));
                s.push(at("pk", None));
                x.pk = true
            }
            _ => {
                s.push(at("pk", None));
                s.push(at("name", Some(s1("k"))));
                x.pk = true
            }
        }
        defs.push(IxDef { paren: c.len() != 1 || (k == 0 && flag()), c, set: if x.set { Some(s) } else { None } });
        // the rules
        if x.c.is_empty() {
            // reported for the block
            vs.push(v(EMPTY_IDX, &[Loc::D(1)]));
        }
        for y in &x.c {
            if let Ix::C(y) = y {
                let known = y.b.len() == 1 && y.b[0] >= b'a' && y.b[0] <= b'c';
                if !known {
                    vs.push(v(NO_COL, &[Loc::Idx(1, i)]));
                }
            }
        }
        if (x.pk as u32) + (x.uniq as u32) + (x.ty.is_some() as u32) > 1 {
            vs.push(v(BAD_IDX, &[Loc::Idx(1, i)]));
        }
        if x.uniq && col_unique && ix_set(&x.c, &[Ix::C(nm("a"))]) {
            vs.push(v(DUP_UNIQ, &[Loc::Idx(1, i), Loc::Col(1, 0)]));
        }
        for (j, y) in all.iter().enumerate() {
            if x.uniq && y.uniq && ix_set(&x.c, &y.c) {
                vs.push(v(DUP_UNIQ, &[Loc::Idx(1, i), Loc::Idx(1, j)]));
            }
            if x.pk && y.pk {
                vs.push(v(DUP_PK, &[Loc::Idx(1, i), Loc::Idx(1, j)]));
            }
            let plain = !x.set && !y.set;
            let typed = x.ty.is_some() && x.ty == y.ty;
            if (plain || typed) && ix_same(&x.c, &y.c) {
                vs.push(v(DUP_IDX, &[Loc::Idx(1, i), Loc::Idx(1, j)]));
            }
        }
        all.push(x);
    }
    t.m.push(Member::I(defs));
    d.push(Decl::T(t));
    // the same definitions in another table never matter
    let mut u = tab("u", vec![col("a", "int"), col("b", "int")]);
    u.m.push(Member::I(vec![ix(&["a", "b"], None), ix(&["a"], None), ix(&["b"], Some(vec![at("unique", None)]))]));
    d.push(Decl::T(u));
    Case { d, v: vs }
}
pub const N_IDX: u64 = 5;

// ---------------------------------------------------------------- C23
#[inline(never)]
pub fn targs(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let i = pick(TYPES.len() as u32) as usize;
    let mut t = tyq(TYPES[i].0);
    let dig = || {
        let b = byte(b'0', b'9');
        Lit::Raw(vec![b'1', b], Value::Integer(10 + (b - b'0') as i64))
    };
    let bad = |j: u32| match j {
        0 => s1("3"),
        1 => raw("2.5", Value::Decimal(2.5)),
        2 => raw("true", Value::Bool(true)),
        3 => raw("#fff", Value::HexColor("#fff".to_string())),
        4 => Lit::Bt(b"n".to_vec()),
        _ => raw("null", Value::Null),
    };
    let mut n = 0;
    let mut ints = true;
    if k == 0 {
        n = pick(5);
        t.args = if n == 4 {
            n = 0;
            None
        } else {
            Some((0..n).map(|_| dig()).collect())
        };
    } else {
        let mut a = Vec::new();
        n = 1 + pick(2);
        for _ in 0..n {
            let j = pick(7);
            if j == 6 {
                a.push(dig());
            } else {
                ints = false;
                a.push(bad(j));
            }
        }
        t.args = Some(a);
    }
    if flag() {
        t.arrays.push(None);
        t.arrays_in = t.q;
    }
    let takes = match TYPES[i].1 {
        1 | 2 | 3 | 4 | 33 | 34 | 35 | 36 => 1,
        40 => 2,
        _ => 0,
    };
    if n > 0 {
        let need = b'0' + takes as u8;
        if n != takes {
            vs.push(vw(BAD_ARGN, &[TYPES[i].0.as_bytes(), &[b' ', need, b' ']], &[Loc::Col(1, 1)]));
        }
        if !ints {
            vs.push(v(BAD_ARG, &[Loc::Col(1, 1)]));
        }
    }
    let mut x = tab("t", vec![col("a", "varchar")]);
    x.m.push(Member::C(Col { n: nm("b"), t, set: None }));
    d.push(Decl::T(x));
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C24
/// k 0: string lengths, 1: integer ranges, 2: kinds, 3: non-ASCII strings, 4: long strings
#[inline(never)]
pub fn defaults(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let at = [Loc::Col(1, 1)];
    let mut x = tab("t", vec![col("a", "int")]);
    let mut c = Col { n: nm("b"), t: ty("int"), set: None };
    let sized = ["char", "varchar", "bit", "varbit", "character", "character varying", "bit varying", "text"];
    let fixed = |i: usize| matches!(i, 0 | 2 | 4);
    match k {
        0 | 3 => {
            let i = pick(8) as usize;
            c.t = tyq(sized[i]);
            let dg = byte(b'0', b'9');
            let n = (dg - b'0') as i64;
            let has = i != 7 && flag();
            if has {
                c.t.args = Some(vec![Lit::Raw(vec![dg], Value::Integer(n))]);
            }
            let len = pick(5) as i64;
            let mut s = Vec::new();
            for j in 0..len {
                if k == 3 && j % 2 == 0 {
                    // two- and three-byte characters
                    if j == 0 {
                        s.push(0xc3);
                        s.push(byte(0x80, 0xbf));
                    } else {
                        s.push(0xe2);
                        s.push(0x82);
                        s.push(byte(0x80, 0xbf));
                    }
                } else {
                    s.push(l());
                }
            }
            let txt = s.clone();
            c.set = Some(vec![sv("default", if flag() { Lit::S1(s) } else { Lit::Dq(s) })]);
            if has && ((fixed(i) && len != n) || (!fixed(i) && len > n)) {
                vs.push(vw(BAD_DEF, &[&txt], &at));
            }
        }
        1 => {
            let i = pick(6) as usize;
            let (name, max): (&str, i64) = [("smallint", 32767), ("int2", 32767), ("integer", 2147483647), ("int", 2147483647), ("bigint", i64::MAX), ("int8", i64::MAX)][i];
            c.t = ty(name);
            // the leading digits of the bound, then arbitrary digits
            let full = ["32767", "2147483647", "9223372036854775807"][i / 2].as_bytes();
            let extra = pick(3) as usize; // 0: as long as the bound, 1: one digit more, 2: two digits less
            let free = 3;
            let mut b: Vec<u8> = Vec::new();
            let len = match extra {
                0 => full.len(),
                1 => full.len() + 1,
                _ => full.len() - 2,
            };
            for j in 0..len {
                b.push(if j + free >= len { byte(b'0', b'9') } else { full[j % full.len()] });
            }
            let mut val: u128 = 0;
            for y in &b {
                val = val * 10 + (*y - b'0') as u128;
            }
            // a literal beyond 64 bits is another property's business
            assume(val <= i64::MAX as u128);
            let val = val as i64;
            let mut key = vec![sv("default", Lit::Raw(b, Value::Integer(val)))];
            if flag() {
                key.insert(0, sv("note", s1("default")));
            }
            c.set = Some(key);
            if val > max {
                vs.push(vw(EXCEED, &[name.as_bytes()], &at));
            }
        }
        2 => {
            let i = pick(TYPES.len() as u32) as usize;
            c.t = tyq(TYPES[i].0);
            let nul = pick(4);
            let mut s = Vec::new();
            match nul {
                1 => s.push(sa("null")),
                2 => s.push(sa("not null")),
                _ => {}
            }
            let kind = pick(6);
            match kind {
                0 | 1 => {
                    let b = kind == 0;
                    let w: &str = if b { "true" } else { "false" };
                    s.push(sv("default", raw(w, Value::Bool(b))));
                    if TYPES[i].1 != 29 {
                        vs.push(vw(BAD_DEF, &[w.as_bytes(), TYPES[i].0.as_bytes()], &at));
                    }
                }
                2 => {
                    s.push(sv("default", raw("null", Value::Null)));
                    if nul != 1 && nul != 3 {
                        vs.push(v(DEF_NULL, &at));
                    }
                }
                3 => s.push(sv("default", Lit::Bt(b"now()".to_vec()))),
                4 => s.push(sv("default", int(7))),
                _ => s.push(sv("default", s1("x"))),
            }
            if nul == 3 {
                s.push(sa("null"));
            }
            c.set = Some(s);
        }
        6 => {
            // characters of every kind at either end
            let i = pick(8) as usize;
            c.t = tyq(sized[i]);
            let n = pick(3) as i64 + 1;
            let has = i != 7 && flag();
            if has {
                c.t.args = Some(vec![int(n)]);
            }
            let len = pick(4) as i64 + 1;
            let any = || {
                let b = byte(b' ', b'~');
                assume(b != b'\'' && b != b'"' && b != b'\\' && b != b'`');
                b
            };
            let mut s = vec![any()];
            for _ in 2..len {
                s.push(b'x');
            }
            if len > 1 {
                s.push(any());
            }
            let lit = if flag() { Lit::S1(s) } else { Lit::Dq(s) };
            // white space right after ' is no part of the value
            let len = match lit.value() {
                Value::String(x) => x.len() as i64,
                _ => -1,
            };
            c.set = Some(vec![sv("default", lit)]);
            if has && ((fixed(i) && len != n) || (!fixed(i) && len > n)) {
                vs.push(v(BAD_DEF, &at));
            }
        }
        5 => {
            // among two other settings, in any order
            let (t, v0, e) = [
                ("int", raw("null", Value::Null), Some(DEF_NULL)),
                ("bool", raw("null", Value::Null), Some(DEF_NULL)),
                ("bool", raw("true", Value::Bool(true)), None),
                ("text", raw("true", Value::Bool(true)), Some(BAD_DEF)),
                ("smallint", raw("32768", Value::Integer(32768)), Some(EXCEED)),
                ("smallint", raw("32767", Value::Integer(32767)), None),
                ("varchar", s1("xyz"), Some(BAD_DEF)),
            ][pick(7) as usize]
                .clone();
            c.t = ty(t);
            if t == "varchar" {
                c.t.args = Some(vec![int(2)]);
            }
            let mut s = Vec::new();
            let mut used: Vec<u32> = Vec::new();
            for _ in 0..2 {
                let i = pick(8);
                assume(!used.contains(&i));
                used.push(i);
                s.push(match i {
                    0 => sa("null"),
                    1 => sa("not null"),
                    2 => sa("unique"),
                    3 => sa("pk"),
                    4 => sa("increment"),
                    5 => sv("note", s1("null")),
                    6 => sa("other"),
                    _ => Set::Ref(1, end("t", "a")),
                });
            }
            // the reference needs a key, and equal types
            if used.contains(&7) {
                assume(t == "int");
                x.m[0] = Member::C(cols("a", "int", vec![sa("unique")]));
            }
            s.insert(pick(3) as usize, sv("default", v0));
            let (null, not, pk) = (used.contains(&0), used.contains(&1), used.contains(&3));
            if null && not {
                vs.push(v(NULL_CONF, &at));
            }
            if null && pk {
                vs.push(v(NULL_PK, &at));
            }
            if let Some(e) = e {
                if e != DEF_NULL || !null || not {
                    vs.push(v(e, &at));
                }
            }
            c.set = Some(s);
        }
        _ => {
            // a length of two digits against a long text
            let i = pick(4) as usize;
            c.t = tyq(sized[i]);
            let (d1, d2) = (byte(b'1', b'3'), byte(b'0', b'9'));
            let n = ((d1 - b'0') as i64) * 10 + (d2 - b'0') as i64;
            c.t.args = Some(vec![Lit::Raw(vec![d1, d2], Value::Integer(n))]);
            let len = [9usize, 10, 19, 25, 39, 40][pick(6) as usize];
            let mut s = vec![b'1'; len];
            s[len / 2] = l();
            c.set = Some(vec![sv("default", if flag() { Lit::S1(s) } else { Lit::S3(s) })]);
            let len = len as i64;
            if (fixed(i) && len != n) || (!fixed(i) && len > n) {
                vs.push(v(BAD_DEF, &at));
            }
        }
    }
    x.m.push(Member::C(c));
    x.m.push(Member::C(col("z", "varchar")));
    d.push(Decl::T(x));
    Case { d, v: vs }
}
pub const N_DEFAULTS: u64 = 5;

// ---------------------------------------------------------------- C25
#[inline(never)]
pub fn enums(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let (s1_, e1, v1) = (schema(pick(3)), n1("e"), nb(&[l(), l()]));
    let (s2, e2, v2) = (if k == 0 { None } else { schema(pick(3)) }, n1("e"), nb(&[l(), l()]));
    assume(!(same_schema(&s1_, &s2) && same(&e1, &e2)));
    let mk = |s: &Option<Nm>, n: &Nm, v: &Nm| {
        let mut e = en("x", &["third"]);
        e.s = s.clone();
        e.n = n.clone();
        e.v.insert(0, (v.clone(), None));
        e
    };
    // a table in the public schema makes that schema known
    let mut t = tab("t", vec![col("a", "int")]);
    let mut ct = tyb(&n1("e").b);
    let ts = schema(pick(3));
    ct.schema = ts.clone();
    let tn = nb(&ct.name);
    let dv = nb(&[l(), l()]);
    let form = pick(if k == 0 { 5 } else { 2 });
    let lit = match form {
        0 => Lit::Raw(dv.b.clone(), Value::Enum(own(&dv.b))),
        1 => Lit::S1(dv.b.clone()),
        2 => Lit::Dq(dv.b.clone()),
        3 => raw("third", Value::Enum("third".to_string())),
        _ => raw("null", Value::Null),
    };
    let used: Nm = if form == 3 { nm("third") } else { dv.clone() };
    let mut set = vec![sv("default", lit)];
    if form == 4 {
        set.push(sa("null"));
    }
    t.m.push(Member::C(Col { n: nm("b"), t: ct, set: Some(set) }));
    let (a, b) = (mk(&s1_, &e1, &v1), mk(&s2, &e2, &v2));
    let at = [Loc::Col(1, 1)];
    if form != 4 {
        let hit = |e: &En| same(&e.n, &tn) && same_schema(&e.s, &ts);
        let known = same_schema(&ts, &None) || same_schema(&ts, &s1_) || same_schema(&ts, &s2);
        let e = if hit(&a) {
            Some(&a)
        } else if hit(&b) {
            Some(&b)
        } else {
            None
        };
        match e {
            None => vs.push(v(if known { NO_ENUM } else { NO_SCHEMA }, &at)),
            Some(e) => {
                if !e.v.iter().any(|x| same(&x.0, &used)) {
                    vs.push(v(NO_EVAL, &at));
                }
            }
        }
    }
    d.push(Decl::T(t));
    d.push(Decl::E(a));
    d.push(Decl::E(b));
    Case { d, v: vs }
}
/// values written with digits, blanks and other characters
#[inline(never)]
pub fn enums2(_k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    let q = Nm { b: vec![byte(33, 126), b' ', byte(48, 57)], q: true };
    assume(q.b[0] != b'"' && q.b[0] != b'\'');
    let mut e = en("kind", &["one", "two_2"]);
    e.v.push((q.clone(), None));
    e.v.push((nq("7"), None));
    let (lit, ok) = match pick(12) {
        6 => (Lit::Bt(b"now()".to_vec()), false),
        7 => (int(7), true),
        8 => (int(8), false),
        9 => (raw("7.5", Value::Decimal(7.5)), false),
        10 => (raw("#fff", Value::HexColor("#fff".to_string())), false),
        11 => (s1("7"), true),
        0 => {
            let x = vec![byte(33, 126), b' ', byte(48, 57)];
            assume(x[0] != b'"' && x[0] != b'\'');
            let ok = x[..] == q.b[..];
            (Lit::S1(x), ok)
        }
        1 => (bare("two_2"), true),
        2 => (bare("two_22"), false),
        3 => (bare("One"), false),
        4 => (Lit::Dq(q.b.clone()), true),
        _ => (Lit::S3(b"one".to_vec()), true),
    };
    let mut t = tab("t", vec![]);
    t.m.push(Member::C(Col { n: nm("b"), t: ty("kind"), set: Some(vec![sa("not null"), sv("default", lit)]) }));
    t.m.push(Member::C(Col { n: nm("c"), t: ty("kind"), set: Some(vec![sv("default", bare("one"))]) }));
    if !ok {
        vs.push(v(NO_EVAL, &[Loc::Col(1, 0)]));
    }
    d.push(Decl::T(t));
    d.push(Decl::E(e));
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C26
#[inline(never)]
pub fn groups(k: u64) -> Case {
    let mut d = vec![proj()];
    let mut vs = Vec::new();
    if k == 2 {
        // tables that read the same when joined
        let (a, b) = joined();
        let both = flag();
        for (i, (s, n)) in [&a, &b].into_iter().enumerate() {
            if i == 0 || both {
                let mut t = tab("x", vec![col("a", "int")]);
                t.s = Some(s.clone());
                t.n = n.clone();
                d.push(Decl::T(t));
            }
        }
        let mut g = gr("g", &[]);
        g.items = [&a, &b].into_iter().map(|(s, n)| Ok((Some(s.clone()), n.clone()))).collect();
        if !both {
            vs.push(v(NO_TABLE, &[Loc::Item(2, 1)]));
        }
        d.push(Decl::G(g));
        return Case { d, v: vs };
    }
    if k == 3 {
        // a table takes precedence over an alias of the same name
        let al = n1("t");
        let mut t = tab("ux", vec![col("a", "int")]);
        t.alias = Some(al.clone());
        d.push(Decl::T(t));
        let mut u = tab("x", vec![col("a", "int")]);
        u.n = n1("t");
        let mut w = tab("uz", vec![col("a", "int")]);
        w.s = if flag() { Some(nm("s")) } else { None };
        let names = [nm("ux"), u.n.clone(), al];
        d.push(Decl::T(u));
        d.push(Decl::T(w));
        let mut g = gr("g", &[]);
        let mut seen: Vec<usize> = Vec::new();
        for i in 0..2 {
            let x = names[pick(3) as usize].clone();
            let which = if same(&x, &names[1]) { 1 } else { 0 };
            if let Some(j) = seen.iter().position(|y| *y == which) {
                vs.push(v(DUP_ITEM, &[Loc::Item(4, i), Loc::Item(4, j)]));
            }
            seen.push(which);
            g.items.push(Ok((None, x)));
        }
        d.push(Decl::G(g));
        return Case { d, v: vs };
    }
    if k == 4 {
        // two groups over the same tables, each item in any spelling; names that differ in case only
        let ts: [(Option<&str>, &str, Option<&str>); 3] = [(Some("s"), "tAb", Some("al")), (Some("s"), "TaB", None), (None, "tab", Some("ALL"))];
        for (s, n, al) in ts.iter() {
            let mut t = tab(n, vec![col("a", "int")]);
            t.s = s.map(nm);
            t.alias = al.map(nm);
            d.push(Decl::T(t));
        }
        for gi in 0..2 {
            let mut g = gr(if gi == 0 { "g" } else { "h" }, &[]);
            let mut seen: Vec<u32> = Vec::new();
            for i in 0..(if gi == 0 { 3 } else { 2 }) {
                let (w, x): (u32, (Option<&str>, &str)) = match if gi == 0 && i == 2 { 3 } else { pick(5) } {
                    0 => (0, (Some("s"), "tAb")),
                    1 => (1, (Some("s"), "TaB")),
                    2 => (0, (None, "al")),
                    3 => (2, (None, "tab")),
                    _ => (2, (Some("public"), "tab")),
                };
                for (j, y) in seen.iter().enumerate() {
                    if *y == w {
                        vs.push(v(DUP_ITEM, &[Loc::Item(4 + gi, i), Loc::Item(4 + gi, j)]));
                    }
                }
                seen.push(w);
                g.items.push(Ok((x.0.map(nm), nm(x.1))));
            }
            d.push(Decl::G(g));
        }
        return Case { d, v: vs };
    }
    let (a, b, al) = (n1("t"), n1("t"), n1("t"));
    let sb = n1("s");
    // an alias that is also the name of a table of public is ambiguous
    assume(!same(&al, &a));
    let mut t = tab("x", vec![col("a", "int")]);
    t.n = a.clone();
    d.push(Decl::T(t));
    let mut t = tab("x", vec![col("a", "int")]);
    t.n = b.clone();
    t.s = Some(sb.clone());
    t.alias = Some(al.clone());
    d.push(Decl::T(t));
    let mut t = tab("zz", vec![col("a", "int")]);
    t.alias = Some(nm("za"));
    d.push(Decl::T(t));
    let mut g = gr("g", &[]);
    let mut seen: Vec<u32> = Vec::new();
    let n = if k == 0 { 2 } else { 3 };
    for i in 0..n {
        let (s, x) = if k == 0 {
            (schema(pick(3)), n1("t"))
        } else {
            match pick(6) {
                0 => (None, a.clone()),
                1 => (Some(nm("public")), a.clone()),
                2 => (Some(sb.clone()), b.clone()),
                3 => (None, al.clone()),
                4 => (None, nm("za")),
                _ => (None, nm("zz")),
            }
        };
        // which table it is
        let which = match &s {
            Some(s) => {
                if same_schema(&Some(s.clone()), &None) {
                    if same(&x, &a) {
                        Some(0)
                    } else if same(&x, &nm("zz")) {
                        Some(2)
                    } else {
                        None
                    }
                } else if same(s, &sb) && same(&x, &b) {
                    Some(1)
                } else {
                    None
                }
            }
            None => {
                if same(&x, &a) {
                    Some(0)
                } else if same(&x, &al) {
                    Some(1)
                } else if same(&x, &nm("zz")) || same(&x, &nm("za")) {
                    Some(2)
                } else {
                    None
                }
            }
        };
        match which {
            None => vs.push(v(NO_TABLE, &[Loc::Item(4, i)])),
            Some(w) => {
                if let Some(j) = seen.iter().position(|y| *y == w) {
                    vs.push(v(DUP_ITEM, &[Loc::Item(4, i), Loc::Item(4, j)]));
                }
                seen.push(w);
            }
        }
        if which.is_none() {
            seen.push(99 + i as u32);
        }
        g.items.push(Ok((s, x)));
    }
    d.push(Decl::G(g));
    // a table may be in several groups
    d.push(Decl::G(gr("h", &["zz"])));
    d.push(Decl::G(gr("i", &["za"])));
    Case { d, v: vs }
}

// ---------------------------------------------------------------- C29
/// k 0: one relation, every spelling and cardinality; 1: two, the second inline or declared; 2: three;
/// 3: symbolic names, so that names, aliases and schemas coincide
#[inline(never)]
pub fn query(k: u64) -> Case {
    if k == 4 {
        // composite relations, also of a table to itself
        let mk = |n: &str| {
            let mut t = tab(n, ["a", "b", "c", "d", "e", "f"].iter().map(|x| col(x, "int")).collect());
            t.m.push(Member::I(vec![ix(&["a", "b"], Some(vec![at("unique", None)])), ix(&["c", "d"], Some(vec![at("unique", None)])), ix(&["a", "b", "c"], Some(vec![at("unique", None)])), ix(&["d", "e", "f"], Some(vec![at("pk", None)]))]));
            t
        };
        let mut d = vec![proj()];
        let mut t = mk("t");
        t.s = Some(nm("s"));
        t.alias = Some(nm("al"));
        d.push(Decl::T(t));
        d.push(Decl::T(mk("t")));
        let sp = |x: u32, c: &[&str]| match x {
            0 => ends(None, "t", c),
            1 => ends(Some("s"), "t", c),
            2 => ends(Some("public"), "t", c),
            _ => ends(None, "al", c),
        };
        for i in 0..2 {
            let wide = i == 0 && flag();
            let (l, r): (&[&str], &[&str]) = if wide { (&["a", "b", "c"], &["e", "d", "f"]) } else if i == 0 { (&["c", "d"], &["a", "b"]) } else { (&["a", "b"], &["d", "c"]) };
            let m = if i == 0 { 4 } else { 2 };
            let mut f = rf(sp(pick(m), l), if i == 0 { pick(4) } else { 3 }, sp(pick(m), r));
            dress(&mut f, if i == 0 { 2 * pick(2) } else { 1 });
            d.push(Decl::R(f));
        }
        return Case { d, v: Vec::new() };
    }
    let key = |n: &str| cols(n, "int", vec![sa("unique")]);
    let mk = |n: &str| tab(n, vec![key("a"), key("b"), key("c")]);
    let mut t = vec![mk("t"), mk("t"), mk("u")];
    t[1].s = Some(nm("s"));
    t[1].alias = Some(nm("sa"));
    t[2].s = if k == 1 { Some(nm("public")) } else { None };
    t[2].alias = Some(nm("ua"));
    if k == 3 {
        t[0].n = of(b'x', b'z');
        t[1].n = of(b'x', b'z');
        t[1].alias = Some(of(b'x', b'z'));
        t[2].alias = None;
    }
    let sp = |x: u32, c: &str| match x {
        0 => ends(None, "t", &[c]),
        1 => ends(Some("s"), "t", &[c]),
        2 => ends(None, "u", &[c]),
        3 => ends(Some("public"), "t", &[c]),
        4 => ends(None, "sa", &[c]),
        5 => ends(Some("public"), "u", &[c]),
        _ => ends(None, "ua", &[c]),
    };
    let mut rest = Vec::new();
    let n = [1, 2, 3, 1][k as usize];
    for i in 0..n {
        let c = ["a", "b", "c"][i];
        let r = if k == 0 || (k == 1 && i == 0) { pick(4) } else { [1, 0, 3][i] };
        let m = if k == 0 || (k == 1 && i == 0) { 7 } else { 3 };
        let right = if k == 3 {
            let s = match pick(3) {
                0 => None,
                1 => Some(nm("s")),
                _ => Some(nm("public")),
            };
            End { s, t: of(b'x', b'z'), c: vec![nm(c)], paren: false }
        } else {
            sp(pick(m), c)
        };
        // inline on table l, or declared
        if (k != 2 || i == 1) && flag() {
            let l = pick(3) as usize;
            if let Member::C(x) = &mut t[l].m[i] {
                x.set.as_mut().unwrap().push(Set::Ref(r, right));
            }
        } else {
            let left = if k == 3 && flag() { End { s: None, t: of(b'x', b'z'), c: vec![nm(c)], paren: false } } else { sp(pick(m), c) };
            if k == 3 && left.t.b.len() == 1 && left.t.b[0] == b't' {
                assume(false);
            }
            let mut f = rf(left, r, right);
            if k == 0 || i == 1 {
                dress(&mut f, pick(4));
            }
            rest.push(Decl::R(f));
        }
    }
    let mut d = vec![proj()];
    for x in t {
        d.push(Decl::T(x));
    }
    d.extend(rest);
    Case { d, v: Vec::new() }
}
