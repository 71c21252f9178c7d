//! Harness entries. Compiled twice: with std and the library into one LLVM module (crates/irlib), executed
//! symbolically by engine/; and natively with stock std (crates/replay), fed with concrete inputs.
#![allow(clippy::all, dead_code, unused)]
#[macro_use]
pub mod sym;
pub mod model;
pub mod util;
pub mod p_roundtrip;
pub mod p_huge;
pub mod p_entry;
pub mod p_strings;
pub mod p_fold;
pub mod docs;
pub mod p_grammar;
pub mod p_decode;
pub mod p_encode;
pub mod p_json;
pub mod io;
#[cfg(feature = "cmd")]
pub mod real;
#[cfg(feature = "cmd")]
pub mod p_cli;
#[cfg(feature = "wasm")]
pub mod p_wasm;

entries! { BASE;
    p_entry: c26_enc_options, c26_enc_shapes, c26_dec_options, c26_dec_lines2, c26_dec_ascii3, c26_twins_window1, c26_twins_window2, c26_twins_lines2, c26_twins_ascii3, c26_twins_fixed, c27_enc1, c27_enc2, c27_dec1, c27_dec2, c27_many, c27_repeat_fixed, c27_repeat_window1, c27_repeat_ascii3, c27_turns_dec, c27_turns_enc, c17_from;
    p_huge: c08_depths, c01_wide, c01_lengths, c01_vast, c03_wide, c03_lengths, c03_vast, c08_wide, c08_lengths, c14_wide, c14_lengths, c15_enc_wide, c16_wide, c16_lengths, c17_wide, c17_lengths, c04_wide, c05_wide, c06_wide, c07_huge, c11_huge, c12_huge, c13_huge, c15_huge, c25_huge, c09_huge, c09_vast, c10_far, c18_wide;
    p_roundtrip: c01_root_string, c03_root_string, c01_shapes, c03_shapes, c01_wrap2, c03_wrap2, c01_wrap3, c03_wrap3, c01_tables, c03_tables, c01_sizes, c03_sizes, c01_deep, c03_deep, c01_keys, c03_strings, c03_affix, c01_shapes3, c03_shapes3, c01_wrap1, c03_wrap1, c01_mixed, c03_mixed;
    p_strings: c02_ascii2, c02_ascii1, c02_ascii3, c02_ascii4, c02_utf8, c02_affix1, c02_affix2, c02_pair, c02_long, c02_long8;
    p_grammar: c08_bodies, c08_bodies1, c08_bodies3, c08_wrap1, c08_wrap1_2, c08_wrap2, c08_wrap2_1, c08_mixed, c08_shapes, c08_keys, c08_inline3, c08_inline4, c08_row3, c08_row4, c08_key3, c08_key4, c20_long, c20_long1, c20_ascii2, c20_ascii3, c20_ascii4, c20_ascii5, c20_utf8, c20_quoted2, c20_quoted3, c20_quoted4, c20_numeric4, c20_numeric5, c20_numeric6, c20_around, c09_counts, c09_counts2, c09_large, c09_cells, c09_two, c09_empties, c10_blank_mixed, c10_blank_many, c10_odd, c10_odds, c10_tab, c10_tab_ok, c10_units, c10_blank, c10_blank2, c21_ascii2, c21_ascii3, c21_ascii4, c21_long, c21_digits, c21_cost;
    p_decode: c07_utf8_3, c07_utf8_4, c07_ascii4, c07_ascii5, c07_lines2, c07_lines3, c07_lines3_full, c07_lines4, c07_window1, c07_window2, c07_window3, c07_window8, c07_window8_3, c07_events3, c07_events_w, c07_deep, c07_indent, c11_ascii4, c11_ascii5, c11_lines2, c11_lines3, c11_lines3_full, c11_lines4, c11_window1, c11_window2, c11_window3, c12_ascii3, c12_ascii4, c12_lines2, c12_lines3, c12_lines4, c12_window1, c12_window2, c12_defaults, c13_ascii4, c13_ascii5, c13_lines2, c13_lines3, c13_lines3_full, c13_lines4, c13_window1, c13_window2, c13_window3, c13_build5, c13_build6, c13_build7, c15_ascii3, c15_ascii4, c15_lines2, c15_lines3, c15_lines4, c15_flat, c15_window1, c15_window2, c15_calls, c15_calls2, c25_lines2, c25_lines3, c25_lines3_full, c25_lines4, c25_marked, c07_ascii6, c07_window4, c07_long, c11_long, c12_long, c15_long;
    p_encode: c14_mixed, c15_enc_mixed, c18_mixed, c14_shapes, c14_leaves, c14_wrap1, c14_wrap2, c14_tables, c14_strings1, c14_strings2, c14_specials, c14_large, c15_enc_shapes, c15_enc_leaves, c15_enc_wrap1, c15_enc_wrap2, c15_enc_tables, c15_enc_strings, c15_enc_specials, c18_shapes, c18_shapes5, c18_menu, c18_menu2, c18_wraps, c18_wraps_all, c18_special, c18_index, c18_deep4, c18_deep, c18_keys, c19_bits, c19_anywhere, c19_nonfinite, c19_ints, c19_print, c19_print_all, c19_print10, c19_text3, c19_text4, c19_minus, c19_range, c19_digits;
    p_json: c16_shapes, c16_mixed, c16_long, c16_leaves, c16_wrap2, c16_large, c16_deep, c16_utf8, c16_utf8_4, c16_str3, c16_special, c16_seq4, c16_seq5, c16_seq6, c16_lines2, c16_lines3, c16_window1, c16_window2, c16_ascii3, c16_ascii2, c17_shapes, c17_mixed, c17_long, c17_leaves, c17_wrap, c17_strings, c17_numbers, c17_bits, c17_ints, c17_text1, c17_text2, c17_text3, c17_out_lines2, c17_out_window1, c17_out_window2, c17_out_ascii3, c17_out_ascii2, c22_short, c22_ext, c22_case, c22_none;
    p_fold: c04_trees, c05_trees, c04_trees2, c05_trees2, c04_chains3, c05_chains3, c04_chains, c05_chains, c04_chains6, c05_chains6, c04_long, c05_long, c04_wraps, c05_wraps, c05_collide, c05_collide5, c05_segment8, c04_segment8, c05_mixed, c04_mixed, c05_segment, c05_segment3, c06_pairs, c06_triples, c06_triples_q, c06_key3, c06_key4, c06_key5, c06_nested, c06_table, c06_deep, c06_items2, c06_items3, c06_items4;
}
// the program's own main function
#[cfg(feature = "cmd")]
entries! { CMD;
    p_cli: c23_faults1, c23_faults2, c23_faults3, c23_faults4, c23_trickle, c23_large, c23_vast, c23_reject, c23_docs, c23_missing, c22_enc_opts, c22_indents, c22_dec_opts, c22_refuse, c22_run, c28_stats, c28_text, c28_large, c28_decode, c28_faults;
}
#[cfg(not(feature = "cmd"))]
pub const CMD: &[(&str, fn())] = &[];
#[cfg(feature = "wasm")]
entries! { WASM;
    p_wasm: c24_enc_ascii2, c24_dec_ascii3, c24_dec_window1, c24_dec_window2, c24_none, c24_refuse, c24_enc_opts, c24_dec_opts, c24_indents, c24_mix, c24_deep, c24_large;
}
#[cfg(not(feature = "wasm"))]
pub const WASM: &[(&str, fn())] = &[];
pub fn find(n: &str) -> Option<fn()> { [BASE, CMD, WASM].concat().iter().find(|e| e.0 == n).map(|e| e.1) }
