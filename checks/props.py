"""Which scenarios decide which property, how long they may run, and what each of them covers."""
QUICK_DEFAULT = 90
QUICK_S = {"P01": 220, "P08": 200, "P15": 210, "P14": 150}
THOROUGH_S = 720
# properties about the foreign interface
FFI = {"P22"}
# properties whose thorough check also explores the release build's code
RELEASE = {"P01", "P03", "P06", "P14", "P19", "P20"}
# scenarios explored a second time with hash tables iterated in the opposite order (thorough)
HASHED = {"wb::view_loaded", "style::loaded", "pack::sheet_content", "pack::book_content", "pack::untouched", "pack::fresh", "cells::loaded", "sheet::row_loaded", "sheet::col_loaded", "text::attributes", "pack::calc", "doc::opened"}
PLAN = {
    "P01": ["cells::typed", "cells::formula", "cells::overwrite", "cells::replaced", "cells::auto_number", "cells::auto", "many::values", "many::long"],
    "P02": ["cells::bad_ref", "cells::place_index", "cells::place_ref"],
    "P03": ["text::charset", "text::style_text", "text::styles_again", "text::sheet_name", "text::wide", "text::attributes", "text::any_ascii", "text::encodings", "many::long"],
    "P04": ["text::shared_loaded", "text::shared", "many::strings", "many::wide"],
    "P05": ["cells::loaded_rich", "cells::loaded", "pack::sheet_content", "cells::reload", "many::grid", "forms::extensions", "forms::views", "forms::shared_master"],
    "P06": ["pack::fresh", "pack::layout", "many::sheets", "forms::ids"],
    "P07": ["wb::near_names", "wb::history", "wb::history_loaded", "many::sheets", "many::hundreds", "forms::ids"],
    "P08": ["wb::handle_twice", "wb::reopened", "wb::handles"],
    "P09": ["sheet::row_loaded", "sheet::row_new", "sheet::row_history", "sheet::rows_many", "forms::mixed"],
    "P10": ["sheet::col_ref", "sheet::col_loaded", "sheet::col_new", "sheet::col_history", "forms::extensions"],
    "P11": ["cells::order_loaded", "cells::order", "sheet::rows_many", "many::grid", "many::wide", "forms::mixed"],
    "P12": ["wb::view_new", "wb::view_loaded"],
    "P13": ["wb::near_names", "wb::states", "many::sheets"],
    "P14": ["style::formats", "style::refused", "style::borders", "style::pairs", "style::combined", "style::many"],
    "P15": ["style::sides", "style::foreign", "style::loaded", "style::again", "style::many", "style::wide"],
    "P16": ["pack::odd_core", "pack::not_a_package", "pack::truncated", "pack::beside", "pack::odd_shapes", "pack::odd_values", "forms::unreadable", "forms::other_kind", "pack::spoiled"],
    "P17": ["pack::failing_save", "pack::over"],
    "P18": ["pack::core"],
    "P19": ["doc::fresh", "doc::opened", "doc::failing"],
    "P20": ["pack::idle", "pack::calc"],
    "P21": ["pack::untouched", "pack::book_content"],
    "P22": ["ffi::nulls", "ffi::made", "ffi::files", "ffi::calls", "ffi::styles"],
}
# scenario -> (quick bound, thorough bound, what is fixed or left out)
BOUNDS = {
    "cells::auto": ("any text of up to 3 characters", "up to 5 characters", "printable ASCII and XML white space"),
    "cells::auto_number": ("any text of up to 5 characters over 019.eE+- and over the letters of inf/nan, 14 literals", "up to 7 characters", ""),
    "cells::typed": ("six declared types, text of up to 2 characters", "up to 4 characters", "numbers: 4 literals"),
    "cells::formula": ("formula text of 1 to 2 characters, four kinds of cached value", "1 to 4 characters", ""),
    "cells::overwrite": ("3 writes over 2 rows x 2 columns in any order, 1 to 2 columns per write", "4 writes over 2 x 3, 1 to 3 columns", "cell texts are fixed per write"),
    "cells::replaced": ("one of 34 cells (22 written, 12 of other programs) overwritten by one of 22, in one go, after closing the sheet, or after saving and opening", "every pair", "quick: every fifth pair or so; texts are fixed"),
    "cells::reload": ("text of 1 to 2 characters, four types, three edits, a second save", "1 to 4 characters", ""),
    "cells::loaded": ("text of up to 1 character in nine cell forms, an edit elsewhere", "up to 3 characters", ""),
    "cells::loaded_rich": ("ten constructs of cells and rows written by another program, metadata indexes of up to 2 digits", "the same", "fixed documents"),
    "cells::place_ref": ("every reference of 1 or 2 letters and of 3 letters over AEFXZ, in 5 rows, any number of cells per write up to 3", "every 3 letters", ""),
    "cells::place_index": ("every 16-bit column and 32-bit row", "the same", "one write"),
    "cells::bad_ref": ("any text of up to 3 characters over three alphabets, 13 literals", "up to 5 characters", ""),
    "cells::order": ("2 writes at any of 7 rows x 6 columns", "3 writes", ""),
    "cells::order_loaded": ("one write at any of 7 rows x 6 columns of a sheet with rows", "the same", ""),
    "sheet::row_new": ("any row number, heights of a list, every flag absent/false/true, three orders of calls", "more heights, both edge flags freely", "one row"),
    "sheet::row_history": ("2 settings on 3 rows, a save and a reopen", "3 settings", ""),
    "sheet::row_loaded": ("12 forms of rows in a file, 5 edits, one free digit", "the same", ""),
    "sheet::col_new": ("any 16-bit column, 5 widths, every flag absent/false/true", "one more state of a flag", "one column"),
    "sheet::col_ref": ("every reference of 1 or 2 letters and of 3 letters over AFXZ, three forms", "every 3 letters", ""),
    "sheet::col_loaded": ("a range of columns with free ends, 1 setting at any column", "1 to 3 settings", "ranges inside the first 9 columns"),
    "wb::view_new": ("3 settings of six kinds with free values", "4 settings", ""),
    "wb::view_loaded": ("two window attributes of an opened file with free values, one setting", "more pairs of attributes", ""),
    "wb::states": ("three sheets with two states each at one place, any active sheet, 2 operations of four kinds", "3 operations, three states", ""),
    "wb::history": ("3 operations (add, rename, delete, open) with free one-letter names", "4 operations", "at most 4 sheets"),
    "wb::history_loaded": ("the same on an opened workbook whose sheets lie at unusual paths", "4 operations", ""),
    "wb::reopened": ("a cell of any kind with and without formula, style, row and column properties; the sheet closed and opened once or twice, or saved and opened", "free formulas beside every kind, texts of one character", "compared with the same sheet not opened again"),
    "wb::handles": ("4 steps over 2 sheets: open, write at 3 rows, close", "5 steps", ""),
    "wb::handle_twice": ("second handle on an open sheet, saving with an open handle", "the same", ""),
    "text::sheet_name": ("names of 1 to 2 characters, added or renamed", "1 to 4 characters", ""),
    "text::any_ascii": ("any 7-bit text of 1 to 3 characters in three types of cell", "1 to 5 characters", ""),
    "text::wide": ("nine texts of 2- to 4-byte characters next to a free one, four places", "the same", "the wide characters are literals"),
    "text::style_text": ("font name, number format code, colour value of 1 to 2 characters", "1 to 4 characters", ""),
    "text::encodings": ("13 ways of writing a character around a text of up to 1 character", "up to 2 characters", ""),
    "text::attributes": ("six ways of writing an attribute value around a text of up to 2 characters", "up to 3 characters", ""),
    "text::shared": ("3 cells of texts of up to 2 characters over 'ab <'", "4 cells", ""),
    "text::shared_loaded": ("two items of a list of forms of shared strings, new text of up to 2 characters, two saves", "the same", ""),
    "text::charset": ("parts in UTF-16, Latin-1 and UTF-8 with mark", "the same", "fixed documents"),
    "text::styles_again": ("font name of 1 character through two saves", "1 to 2 characters", ""),
    "style::formats": ("every number format, stored and asked for again in the saved file", "the same", ""),
    "style::borders": ("14 line styles x 4 colours x 5 sides, stored and asked for again in the saved file", "the same", ""),
    "style::pairs": ("any two styles that differ from the plain one in one of the aspects, two values each", "the same", ""),
    "style::combined": ("styles that differ from the plain one in any two aspects", "the same", ""),
    "style::refused": ("a custom format without code beside any aspect", "the same", ""),
    "style::loaded": ("a style part of another program beside any new aspect", "the same", "one fixed style part"),
    "style::again": ("two aspects through save, open, save", "the same", ""),
    "pack::untouched": ("any two of 9 edits of an opened workbook, 0 to 2 free bytes of unknown parts", "0 to 5 free bytes", "one fixed package"),
    "pack::sheet_content": ("9 edits of a sheet with every other element, text of up to 1 character in it", "up to 2 characters", "one fixed sheet"),
    "pack::book_content": ("9 edits of a workbook part with every other element, text of up to 1 character in it", "up to 2 characters", "one fixed part"),
    "pack::fresh": ("a new workbook with rows, columns, styles and sheets in two ways", "the same", ""),
    "pack::idle": ("four ways of looking at a workbook and saving it", "the same", "one fixed package"),
    "pack::layout": ("3 folders x 3 sheet paths x 4 kinds of target (one in other letter case) x 3 relationship ids x 3 edits", "free two-letter relationship ids", ""),
    "pack::calc": ("1 of 6 edits at 3 columns of a sheet with formulas and a calculation chain", "2 edits", ""),
    "pack::core": ("title of up to 2 characters, four forms of document properties", "up to 4 characters", ""),
    "pack::failing_save": ("five ways for a save to fail", "the same", ""),
    "pack::over": ("three files to save over", "the same", ""),
    "pack::not_a_package": ("files that are no package, packages that lack one of six parts", "the same", ""),
    "pack::odd_values": ("any text of up to 3 characters over 'A1.-0 ' or 11 literals at 16 places", "up to 4 characters", ""),
    "pack::odd_shapes": ("bodies of a list in place of 7 parts", "the same", "fixed documents"),
    "pack::odd_core": ("nine forms of document properties", "the same", "fixed documents"),
    "pack::beside": ("7 parts with each of 9 pieces of text or tags before, behind or inside the end of their element that leave them ill-formed, and 3 of white space or comments that do not", "the same", ""),
    "pack::truncated": ("7 parts cut at 24 places each", "96 places", ""),
    "many::values": ("26 numbers, 5 dates, 8 errors at each place of a row, with and without opening and saving again", "the same", "literals"),
    "many::long": ("texts of 8 lengths from 31 to 1000 characters, one of them any character, in five kinds of cell", "up to 32767 characters, through two saves", "the other characters are fixed"),
    "many::strings": ("12 strings in the file or written, new text of up to 2 free characters that may equal one of them", "the same", ""),
    "many::sheets": ("one of seven operations at any sheet of a workbook with 11 sheets, then opening and adding one", "two operations", "one fixed workbook"),
    "many::grid": ("writing 1 or 2 cells at any of 6 rows x 5 columns of a sheet with 20 cells of 11 kinds, one free character", "the same", "one fixed sheet"),
    "many::wide": ("a new string written at any of 9 rows x 7 columns, or one of four old ones at 3 x 3, of a sheet with 260 rows, columns and strings", "each string at each place", "fixed document"),
    "many::hundreds": ("one of five operations at any of 7 of 260 sheets", "the same", "fixed document"),
    "style::wide": ("any aspect with two values beside 260 styles, fonts, fills, borders and formats of the opened file", "the same", "fixed document"),
    "sheet::col_history": ("3 settings of five kinds on 3 columns, saved and opened at any point", "4 settings on 5 columns", ""),
    "sheet::rows_many": ("11 rows with cells and heights, any row hidden", "the same", ""),
    "style::foreign": ("94 elements other programs write into fonts, fills, borders, cell formats and number formats, as the first of their list or a further one, beside some 40 requested styles", "the same", ""),
    "style::sides": ("every member of six groups of styles alike but for one thing (sides, lines, colours, font marks, alignments, number formats) in the opened file, beside all others of its group", "the same", ""),
    "style::many": ("13 styles and any other aspect, with and without opening the saved file", "the same", ""),
    "pack::spoiled": ("any of about 150 elements or attributes of 9 parts removed, doubled, emptied or given another value", "two more values of an attribute", "one fixed package, one spoiled place"),
    "forms::extensions": ("extension lists at 6 places of a sheet with a text of up to 1 character, one or two lists of columns, 5 edits", "the same", ""),
    "forms::shared_master": ("a shared formula and 5 edits of its cells", "the same", "fixed document"),
    "forms::unreadable": ("12 kinds of faults in a sheet or its relationships, one free character", "the same", ""),
    "forms::other_kind": ("9 packages that are no workbook or have parts that start with another element, any prefix of two letters of a list", "the same", ""),
    "forms::ids": ("three relationship ids of any different digits of 12349, then deleting one sheet or none and adding one or two", "ids and sheet ids of any digits", "three sheets"),
    "forms::views": ("a view of a sheet with any flag in any spelling beside another, panes, selections, a second view; an edit elsewhere", "any two flags", ""),
    "wb::near_names": ("two sheets and a name asked for of 1 to 2 characters over 'AB ', six operations that take a name", "up to 3 characters", ""),
    "forms::mixed": ("rows set before, after and between cells written at any of the rows and columns of the list", "the same", ""),
    "doc::fresh": ("new Word and PowerPoint files", "the same", ""),
    "doc::opened": ("opened Word and PowerPoint files, a text of up to 1 character", "up to 3 characters", "fixed packages"),
    "ffi::calls": ("two calls of five kinds with names of up to 2 characters on a workbook with three sheets, then saving; the same done through the library", "three calls", ""),
    "ffi::made": ("a new workbook with up to two sheets of free names", "the same", ""),
    "ffi::files": ("three kinds of files, four sources, four targets, good and bad tables", "the same", ""),
    "ffi::nulls": ("each argument of each call missing", "the same", ""),
    "ffi::styles": ("10 number formats, one of five other wishes and some marks (any marks for three formats)", "any marks", ""),
    "doc::failing": ("three ways to fail", "the same", ""),
}


def bound_text(scen, deep=False):
    q, t, rest = BOUNDS.get(scen, ("see DESIGN.md", "see DESIGN.md", ""))
    b = q if not deep else (q if t == "the same" else "%s; thorough: %s" % (q, t))
    return b + ("; " + rest if rest else "")


ASSUMPTIONS = [
    "std, zip, quick_xml, flate2, chrono, phf and anyhow behave as their models in symex/ (compared on every run with the compiled code on random inputs)",
    "text inputs are ASCII where not stated otherwise; lengths and counts within the stated bounds",
    "hash tables iterate in insertion order (thorough: for some scenarios also in reverse) instead of every order",
    "the clock, the file system and the zip container are models: a write either works or fails as a whole, sizes do not matter",
]
