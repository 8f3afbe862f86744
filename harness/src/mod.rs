//! Entry points. Every entry takes two numbers that select a scenario family member and a mode.
pub mod cases;
pub mod gen;
pub mod p_sem;
pub mod p_syn;
#[cfg(feature = "hooks")]
pub mod query;
pub mod rec;
pub mod sem;
pub mod sig;
pub mod spans;
pub mod sys;

macro_rules! entries {
    ($($n:ident => $p:path),* $(,)?) => {
        $(#[no_mangle]
        pub extern "C" fn $n(a: u64, b: u64) {
            $p(a, b)
        })*
        #[allow(dead_code)]
        pub fn dispatch(name: &str, a: u64, b: u64) -> bool {
            match name {
                $(stringify!($n) => $p(a, b),)*
                _ => return false,
            }
            true
        }
    };
}
entries! {
    h_window => p_syn::window,
    h_join => p_syn::join,
    h_settings_of => p_syn::settings_of,
    h_conversions => p_syn::conversions,
    h_alone => p_syn::alone,
    h_long => p_syn::long,
    h_cut => p_syn::cut,
    h_free => p_syn::free,
    h_span_gap => p_syn::span_gap,
    h_defaults_any => p_syn::defaults_any,
    h_value_any => p_syn::value_any,
    h_ident_at => p_syn::ident_at,
    h_literal_at => p_syn::literal_at,
    h_literal_sel => p_syn::literal_sel,
    h_integer => p_syn::integer,
    h_leading_zeros => p_syn::leading_zeros,
    h_decimals => p_syn::decimals,
    h_words => p_syn::words,
    h_hex => p_syn::hex,
    h_layout => p_syn::layout,
    h_case => p_syn::case,
    h_sequence => p_syn::sequence,
    h_members => p_syn::members,
    h_col_settings => p_syn::col_settings,
    h_types => p_syn::types,
    h_dims => p_syn::dims,
    h_references => p_syn::references,
    h_same_forms => p_syn::same_forms,
    h_index_defs => p_syn::index_defs,
    h_big => p_syn::big,
    h_big_sequence => p_syn::big_sequence,
    h_closed_word => p_syn::closed_word,
    h_names => p_sem::names,
    h_projects => p_sem::projects,
    h_settings => p_sem::settings,
    h_settings2 => p_sem::settings2,
    h_resolve => p_sem::resolve,
    h_resolve_comp => p_sem::resolve_comp,
    h_resolve_misc => p_sem::resolve_misc,
    h_fktype => p_sem::fktype,
    h_keys1 => p_sem::keys1,
    h_keys2 => p_sem::keys2,
    h_relations => p_sem::relations,
    h_pks => p_sem::pks,
    h_idx => p_sem::idx,
    h_targs => p_sem::targs,
    h_defaults => p_sem::defaults,
    h_enums => p_sem::enums,
    h_enums2 => p_sem::enums2,
    h_groups => p_sem::groups,
    h_query => p_sem::query,
}
