#[path = "api.rs"]
mod api;
#[path = "bad.rs"]
mod bad;
#[path = "big.rs"]
mod big;
#[path = "cost.rs"]
mod cost;
mod rep;
#[path = "ctx.rs"]
mod ctx;
#[path = "errs.rs"]
mod errs;
#[path = "index.rs"]
mod index;
#[path = "layout.rs"]
mod layout;
#[path = "lit.rs"]
mod lit;
#[path = "mat.rs"]
mod mat;
#[path = "mix.rs"]
mod mix;
#[path = "model.rs"]
mod model;
#[path = "near.rs"]
mod near;
#[path = "par.rs"]
mod par;
#[path = "rel.rs"]
mod rel;
#[path = "seq.rs"]
mod seq;
#[path = "sx.rs"]
pub mod sx;
#[path = "total.rs"]
mod total;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod ent { $( #[no_mangle] pub extern "C" fn $f() { super::$m::$f() } )* }
        #[cfg(feature = "native")]
        pub fn entry(n: &str) -> Option<fn()> {
            match n { $( stringify!($f) => Some($m::$f as fn()), )* _ => None }
        }
    };
}

entries! {
    total::h_obj_raw, total::h_mtl_raw, total::h_obj_tmpl, total::h_mtl_tmpl, total::h_obj_long, total::h_obj_utf8, total::h_mtl_utf8, total::h_long, total::h_word, total::h_longname,
    seq::h_seq,
    index::h_ix, index::h_ix_limit, index::h_ix_many, index::h_ix_none, bad::h_late_lib,
    big::h_big, big::h_names,
    lit::h_lit, lit::h_lit_long, lit::h_lit_table, lit::h_lit_dense, mat::h_mtl_lit_long, mat::h_mtl_count, big::h_obj_count, cost::h_repeat, api::h_show_name, rep::h_rep_fault, rep::h_rep_first, rep::h_rep_concat, rep::h_rep_pure, rep::h_rep_layout, rep::h_eq_long, rep::h_broken,
    bad::h_bad_index, bad::h_mixed, bad::h_at, bad::h_few, bad::h_bad_kw, bad::h_surplus, bad::h_line, bad::h_line_many, bad::h_kind,
    layout::h_layout_obj, layout::h_layout_mtl, layout::h_layout_long, layout::h_pure, layout::h_pure_slice, layout::h_pure_many,
    mat::h_mtl_seq, mat::h_mtl_all, mat::h_mtl_many, mat::h_mtl_words, mat::h_mtl_unknown, mat::h_mtl_args, mat::h_mtl_line, mat::h_mtl_line_many,
    mix::h_mix, mix::h_mix_layout, mix::h_mix_fault, mix::h_mix_pure,
    mat::h_mtl_mix, mat::h_mtl_mix_layout, mat::h_mtl_mix_fault, mat::h_mtl_mix_pure, mat::h_mtl_options,
    lit::h_coords, bad::h_surplus_listed,
    api::h_lookup, api::h_lookup_big, api::h_form, api::h_show_index, api::h_show_element, api::h_show_groups, api::h_reparse, api::h_show_data, api::h_show_set, api::h_show_big,
    near::h_near_index, near::h_near_number, near::h_near_kw, near::h_mtl_near_kw, near::h_mtl_near_number, near::h_smooth,
    rel::h_first, rel::h_mtl_first, rel::h_mix_first, rel::h_mtl_mix_first, rel::h_concat, rel::h_mtl_concat, rel::h_mix_concat, rel::h_mtl_mix_concat, rel::h_mtl_pair, rel::h_obj_pair, rel::h_eq, rel::h_eq_sets,
    cost::h_cost, cost::h_cost_unit, cost::h_cost_tmpl,
    errs::h_msg, par::h_beside, par::h_beside_first, par::h_two, errs::h_msg_lines, errs::h_error_made, ctx::h_ctx, ctx::h_mtl_ctx, api::h_show_made, total::h_mix_total, errs::h_mtl_msg, errs::h_mtl_kind,
}
