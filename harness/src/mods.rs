/// declares the harness entry points: exported symbols for the symbolic executor, a table for the native replay
macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
    pub fn entries() -> Vec<(&'static str, extern "C" fn())> { vec![$((stringify!($f), $f as extern "C" fn())),*] }
} }
#[path = "sym.rs"] mod sym;
#[path = "cards.rs"] mod cards;
#[path = "build.rs"] mod build;
#[path = "image_h.rs"] mod image_h;
#[path = "headers.rs"] mod headers;
#[path = "walk.rs"] mod walk;
#[path = "tables.rs"] mod tables;
#[path = "tiles.rs"] mod tiles;
#[path = "asyn.rs"] mod asyn;
#[path = "ascii.rs"] mod ascii;
#[path = "kinds.rs"] mod kinds;
#[path = "robust.rs"] mod robust;
#[path = "decoder.rs"] mod decoder;
#[path = "gz.rs"] mod gz;
#[path = "reader.rs"] mod reader;
#[path = "far.rs"] pub mod far;
entries! {
    cards::h_card_string,
    cards::h_card_string_window,
    cards::h_card_int,
    cards::h_card_long,
    cards::h_card_float,
    cards::h_card_misc,
    cards::h_card_keyword,
    cards::h_card_total,
    cards::h_card_string_any,
    cards::h_card_hierarch,
    cards::h_card_append,
    image_h::h_image_pixels,
    image_h::h_image_random,
    image_h::h_image_far,
    headers::h_header_continue,
    headers::h_header_map,
    headers::h_header_many,
    headers::h_header_longstr,
    headers::h_header_record,
    headers::h_header_typed,
    headers::h_header_unit,
    walk::h_walk_size,
    walk::h_walk_multi,
    tables::h_table,
    tables::h_descriptor,
    tables::h_colname,
    tiles::h_tile,
    tiles::h_rice_any,
    tiles::h_tile_float,
    asyn::h_async,
    ascii::h_ascii,
    kinds::h_kind,
    robust::h_robust,
    kinds::h_mandatory,
    kinds::h_parity,
    kinds::h_first,
    decoder::h_decode,
    gz::h_gz,
    reader::h_reader,
    far::h_far_table,
}
