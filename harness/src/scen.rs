//! The scenarios: each drives the library through its public interface on symbolic inputs and states what a
//! reader of the saved file must see.
pub mod book;
pub mod cells;
pub mod common;
pub mod demo;
pub mod doc;
#[cfg(feature = "ffi")]
pub mod ffi;
pub mod forms;
pub mod pack;
pub mod many;
pub mod sheet;
pub mod style;
pub mod text;
pub mod wb;

pub const ALL: &[(&str, fn())] = &[
    ("demo::t_basic", demo::t_basic),
    ("cells::auto", cells::auto),
    ("cells::auto_number", cells::auto_number),
    ("cells::typed", cells::typed),
    ("cells::formula", cells::formula),
    ("cells::overwrite", cells::overwrite),
    ("cells::reload", cells::reload),
    ("cells::replaced", cells::replaced),
    ("cells::loaded", cells::loaded),
    ("cells::loaded_rich", cells::loaded_rich),
    ("cells::place_ref", cells::place_ref),
    ("cells::place_index", cells::place_index),
    ("cells::bad_ref", cells::bad_ref),
    ("cells::order", cells::order),
    ("cells::order_loaded", cells::order_loaded),
    ("sheet::row_new", sheet::row_new),
    ("sheet::row_history", sheet::row_history),
    ("sheet::row_loaded", sheet::row_loaded),
    ("sheet::col_new", sheet::col_new),
    ("sheet::col_ref", sheet::col_ref),
    ("sheet::col_loaded", sheet::col_loaded),
    ("sheet::col_history", sheet::col_history),
    ("sheet::rows_many", sheet::rows_many),
    ("wb::view_new", wb::view_new),
    ("wb::view_loaded", wb::view_loaded),
    ("wb::states", wb::states),
    ("wb::history", wb::history),
    ("wb::history_loaded", wb::history_loaded),
    ("wb::handles", wb::handles),
    ("wb::reopened", wb::reopened),
    ("wb::handle_twice", wb::handle_twice),
    ("wb::near_names", wb::near_names),
    ("many::values", many::values),
    ("many::long", many::long),
    ("many::strings", many::strings),
    ("many::sheets", many::sheets),
    ("many::grid", many::grid),
    ("many::wide", many::wide),
    ("many::hundreds", many::hundreds),
    ("text::sheet_name", text::sheet_name),
    ("text::any_ascii", text::any_ascii),
    ("text::wide", text::wide),
    ("text::style_text", text::style_text),
    ("text::encodings", text::encodings),
    ("text::attributes", text::attributes),
    ("text::shared", text::shared),
    ("text::shared_loaded", text::shared_loaded),
    ("text::charset", text::charset),
    ("text::styles_again", text::styles_again),
    ("style::formats", style::formats),
    ("style::borders", style::borders),
    ("style::pairs", style::pairs),
    ("style::combined", style::combined),
    ("style::refused", style::refused),
    ("style::loaded", style::loaded),
    ("style::again", style::again),
    ("style::many", style::many),
    ("style::wide", style::wide),
    ("style::sides", style::sides),
    ("style::foreign", style::foreign),
    ("pack::untouched", pack::untouched),
    ("pack::sheet_content", pack::sheet_content),
    ("pack::book_content", pack::book_content),
    ("pack::fresh", pack::fresh),
    ("pack::idle", pack::idle),
    ("pack::layout", pack::layout),
    ("pack::calc", pack::calc),
    ("pack::core", pack::core),
    ("pack::failing_save", pack::failing_save),
    ("pack::over", pack::over),
    ("pack::not_a_package", pack::not_a_package),
    ("pack::odd_values", pack::odd_values),
    ("pack::odd_shapes", pack::odd_shapes),
    ("pack::odd_core", pack::odd_core),
    ("pack::truncated", pack::truncated),
    ("pack::beside", pack::beside),
    ("pack::spoiled", pack::spoiled),
    ("forms::extensions", forms::extensions),
    ("forms::shared_master", forms::shared_master),
    ("forms::unreadable", forms::unreadable),
    ("forms::other_kind", forms::other_kind),
    ("forms::ids", forms::ids),
    ("forms::mixed", forms::mixed),
    ("forms::views", forms::views),
    ("doc::fresh", doc::fresh),
    ("doc::opened", doc::opened),
    ("doc::failing", doc::failing),
    #[cfg(feature = "ffi")]
    ("ffi::calls", ffi::calls),
    #[cfg(feature = "ffi")]
    ("ffi::made", ffi::made),
    #[cfg(feature = "ffi")]
    ("ffi::files", ffi::files),
    #[cfg(feature = "ffi")]
    ("ffi::nulls", ffi::nulls),
    #[cfg(feature = "ffi")]
    ("ffi::styles", ffi::styles),
];
