//! C14 - C30: one entry per scenario family; `a` selects the member, `b` how it is judged.
use super::cases;
use super::sem::{judge, Mode};

fn mode(b: u64) -> Mode {
    match b {
        0 => Mode::Verdict,
        1 => Mode::Order,
        2 => Mode::Spell,
        3 => Mode::Error,
        4 => Mode::Same,
        6 => Mode::Rename,
        7 => Mode::Pad,
        8 => Mode::PadMore,
        9 => Mode::Layout,
        10 => Mode::Shown,
        11 => Mode::Run,
        12 => Mode::RunNamed,
        _ => Mode::Query,
    }
}
macro_rules! fam {
    ($($n:ident),*) => {
        $(pub fn $n(a: u64, b: u64) {
            judge(cases::$n(a), mode(b))
        })*
    };
}
fam!(names, projects, settings, settings2, resolve, resolve_comp, resolve_misc, fktype, keys1, keys2, relations, pks, idx, targs, defaults, enums, enums2, groups, query);
