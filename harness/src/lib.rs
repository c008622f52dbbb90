//! Verification harnesses for instant-xml.
#![allow(dead_code)]
pub mod sx;
pub mod gen;
pub mod refxml;

/// Stands in for the macro crate's identifiers, so that its case.rs can be executed as it is.
#[cfg(feature = "p17case")]
extern crate self as proc_macro2;
#[cfg(feature = "p17case")]
pub struct Ident(pub String);
#[cfg(feature = "p17case")]
impl std::fmt::Display for Ident {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

/// Declares the harnesses: exported C symbols for the executor, and a table for native replay.
macro_rules! reg {
    ($($feat:literal $m:ident { $($h:ident),* $(,)? })*) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        $( $( #[cfg(feature = $feat)] #[no_mangle] pub extern "C" fn $h() { $m::$h() } )* )*
        #[cfg(feature = "native")]
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( $( #[cfg(feature = $feat)] v.push((stringify!($h), $m::$h)); )* )*
            v
        }
    };
}

reg! {
    "p01" p01 { h01_named, h01_direct, h01_enums, h01_nested, h01_tuple, h01_mixed, h01_transparent, h01_ns, h01_borrow, h01_generic, h01_rename, h01_scalars, h01_floats, h01_rich, h01_large }
    "p02" p02 { h02_text, h02_attr, h02_direct, h02_types, h02_display, h02_enum, h02_bare, h02_rich, h02_ascii, h02_long }
    "p03" p03 { h03_any, h03_decimal, h03_hex, h03_junk, h03_sequence, h03_plain, h03_cdata, h03_long, h03_ignored }
    "p04" p04 { h04_short, h04_open, h04_hole, h04_hole_any, h04_hole_wide, h04_cut, h04_tokens, h04_scalars, h04_temporal, h04_cursor, h04_long, h04_long_names }
    "p05" p05 { h05_tokens, h05_text, h05_nested, h05_prefixes, h05_names, h05_truncated, h05_edit, h05_mutate, h05_large }
    "p06" p06 { h06_tree, h06_typed, h06_prefix_bytes, h06_uri_bytes, h06_xml, h06_unknown, h06_uri_reference, h06_wide, h06_levels, h06_siblings }
    "p07" p07 { h07_junk, h07_pairs, h07_inside, h07_attributes, h07_symbolic, h07_shapes, h07_much }
    "p08" p08 { h08_pair, h08_root, h08_sibling, h08_deep, h08_derived, h08_attr_default, h08_none_child, h08_uri, h08_wide, h08_levels }
    "p09" p09 { h09_calls, h09_text, h09_attr_values, h09_attr_scalars, h09_value, h09_attr_ns }
    "p10" p10 { h10_text, h10_scalar, h10_time, h10_struct, h10_attr, h10_mixed, h10_tuple, h10_direct, h10_many }
    "p11" p11 { h11_small, h11_short, h11_edge, h11_write8, h11_write_u16, h11_write_i16, h11_write32, h11_write_u64, h11_write_i64, h11_write_usize, h11_write_isize }
    "p12" p12 { h12_bool, h12_char, h12_ipv4, h12_ipv6, h12_write, h12_text, h12_unit }
    "p13" p13 { h13_custom, h13_default, h13_levels, h13_totals }
    "p14" p14 { h14_text, h14_attrs, h14_shapes, h14_field, h14_owned, h14_large }
    "p15" p15 { h15_read, h15_write }
    "p16" p16 { h16_root, h16_field, h16_tuple, h16_write, h16_transparent, h16_optional, h16_partial, h16_inline_write, h16_write_text, h16_transparent_text }
    "p17" p17 { h17_fields, h17_variants }
    "p17case" p17case { h17_field, h17_variant, h17_rules }
    "p18" p18 { h18_fields, h18_nested, h18_any, h18_long }
    "p19" p19 { h19_spelling, h19_long }
    "p20" p20 { h20_digits_instant, h20_digits_local, h20_digits_date, h20_edit_instant, h20_edit_local, h20_edit_date, h20_write_instant, h20_write_local, h20_write_date }
    "p21" p21 { h21_named, h21_shapes, h21_scalars, h21_calls, h21_long }
    "p22" p22 { h22_walk, h22_text, h22_nest }
    "p23" p23 { h23_struct, h23_text, h23_tuple, h23_forward, h23_own, h23_any }
    "p24" p24 { h24_presence, h24_lists, h24_text, h24_bare, h24_shapes, h24_stateless }
    "p25" p25 { h25_scalar, h25_element, h25_absent, h25_list, h25_read, h25_read_named }
    "p26" p26 { h26_hand, h26_text, h26_count, h26_with, h26_with_read, h26_raw, h26_with_part }
    "p27" p27 { h27_again, h27_list, h27_nested, h27_read }
    "p28" p28 { h28_write, h28_read, h28_variants }
}
