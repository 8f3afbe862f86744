//! C29: the relation query against the relations the document states.
use super::gen::*;
use super::sem::*;
use super::sys::*;
use dbml_rs::ast::Relation;

struct R {
    l: End,
    r: u32,
    rr: End,
}
fn code(r: &Relation) -> u32 {
    match r {
        Relation::One2Many => 0,
        Relation::Many2One => 1,
        Relation::One2One => 2,
        Relation::Many2Many => 3,
        _ => 99,
    }
}
fn same_end(a: &RefIdent, b: &End) -> bool {
    let mut ok = a.table.to_string.as_bytes() == &b.t.b[..] && a.compositions.len() == b.c.len() && a.schema.is_some() == b.s.is_some();
    if !ok {
        return false;
    }
    if let (Some(x), Some(y)) = (&a.schema, &b.s) {
        ok = x.to_string.as_bytes() == &y.b[..];
    }
    for (x, y) in a.compositions.iter().zip(b.c.iter()) {
        ok = ok & (x.to_string.as_bytes() == &y.b[..]);
    }
    ok
}
/// the table an endpoint means: an unqualified name is a public table of that name, or else an alias
fn means(d: &[Decl], e: &End) -> Option<usize> {
    let by_name = |s: &Option<Nm>| d.iter().position(|x| matches!(x, Decl::T(t) if same(&t.n, &e.t) && same_schema(&t.s, s)));
    if let Some(i) = by_name(&e.s) {
        return Some(i);
    }
    if e.s.is_none() {
        return d.iter().position(|x| matches!(x, Decl::T(t) if matches!(&t.alias, Some(a) if same(a, &e.t))));
    }
    None
}
fn agree(n: usize, eq: &dyn Fn(usize, usize) -> bool, want: &[usize]) -> bool {
    n == want.len() && (0..n).all(|i| eq(i, want[i]))
}
pub fn query(d: &[Decl], text: &[u8]) {
    let u = match dbml_rs::parse_dbml_unchecked(st(text)) {
        Ok(u) => u,
        Err(_) => {
            check(false, 140);
            return;
        }
    };
    let ix = match dbml_rs::analyze(&u) {
        Ok(ix) => ix,
        Err(_) => {
            cover(BAD);
            return;
        }
    };
    cover(OK);
    // the relations of the document: declared ones, then inline ones
    let mut all: Vec<R> = Vec::new();
    for x in d {
        if let Decl::R(r) = x {
            all.push(R { l: r.l.clone(), r: r.r, rr: r.rr.clone() });
        }
    }
    let declared = all.len();
    for x in d {
        if let Decl::T(t) = x {
            for m in &t.m {
                if let Member::C(c) = m {
                    for s in c.set.iter().flatten() {
                        if let Set::Ref(r, e) = s {
                            all.push(R { l: End { s: t.s.clone(), t: t.n.clone(), c: vec![c.n.clone()], paren: false }, r: *r, rr: e.clone() });
                        }
                    }
                }
            }
        }
    }
    let ends: Vec<(Option<usize>, Option<usize>)> = all
        .iter()
        .enumerate()
        .map(|(i, r)| {
            // the left side of an inline relation is the table itself
            let l = if i < declared { means(d, &r.l) } else { d.iter().position(|x| matches!(x, Decl::T(t) if same(&t.n, &r.l.t) && same_schema(&t.s, &r.l.s))) };
            (l, means(d, &r.rr))
        })
        .collect();
    for (l, r) in &ends {
        check(l.is_some() && r.is_some(), 141);
    }
    let tables = u.tables();
    let mut k = 0;
    for (i, x) in d.iter().enumerate() {
        let t = match x {
            Decl::T(t) => t,
            _ => continue,
        };
        let mut id = tables[k].ident.clone();
        k += 1;
        // the schema public may be spelled out in the query or left out
        if same_schema(&t.s, &None) && flag() {
            id.schema = match &id.schema {
                Some(_) => None,
                None => Some(Ident { span_range: 0..0, raw: own(b"public"), to_string: own(b"public") }),
            };
        }
        let q = dbml_rs::utils::get_table_refs(&id, &ix);
        let mut want: [Vec<usize>; 3] = [Vec::new(), Vec::new(), Vec::new()];
        for (j, (l, r)) in ends.iter().enumerate() {
            let (l, r) = (*l == Some(i), *r == Some(i));
            if l && r {
                want[0].push(j);
                cover(3);
            } else if l {
                want[1].push(j);
                cover(4);
            } else if r {
                want[2].push(j);
                cover(5);
            } else {
                cover(6);
            }
        }
        for (n, got) in [&q.ref_self, &q.ref_to, &q.ref_by].iter().enumerate() {
            let eq = |i: usize, j: usize| {
                let (g, r) = (&got[i], &all[j]);
                code(&g.rel) == r.r && same_end(&g.lhs, &r.l) && same_end(&g.rhs, &r.rr)
            };
            // declared relations in source order, inline relations in source order
            let rot: Vec<usize> = want[n].iter().filter(|j| **j >= declared).chain(want[n].iter().filter(|j| **j < declared)).cloned().collect();
            check(agree(got.len(), &eq, &want[n]) || agree(got.len(), &eq, &rot), 142 + n as u32);
        }
    }
    // a table the document does not have
    let no = TableIdent { span_range: 0..0, name: Ident { span_range: 0..0, raw: own(b"zz"), to_string: own(b"zz") }, schema: if flag() { None } else { Some(Ident { span_range: 0..0, raw: own(b"s"), to_string: own(b"s") }) }, alias: None };
    let q = dbml_rs::utils::get_table_refs(&no, &ix);
    check(q.ref_self.is_empty() && q.ref_to.is_empty() && q.ref_by.is_empty(), 145);
}
