"""mkmeta.py : writes properties.jsonl and MANIFEST.json from the list below"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "rs/src/spreadsheet/spreadsheet_2007/"
WS, WBK, SST, CC, STY, XL = S + "parts/worksheet.rs", S + "parts/workbook.rs", S + "services/share_string.rs", S + "services/calculation_chain.rs", S + "services/style.rs", S + "excel.rs"
OFF, PAR, WRI, TREE = "rs/src/files/office_document.rs", "rs/src/files/xml/xml_serialize.rs", "rs/src/files/xml/xml_deserialize.rs", "rs/src/files/xml/xml_tree.rs"
REL, CT, CORE = "rs/src/global/global_2007/parts/relations.rs", "rs/src/global/global_2007/parts/content_types.rs", "rs/src/global/global_2007/parts/core_properties.rs"
CONV = "rs/src/utils/converters.rs"
WORD, PPT = "rs/src/document/document_2007/word.rs", "rs/src/presentation/presentation_2007/power_point.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe="parts of the saved package, read by an independent parser in harness/src/{xml,obs}.rs"):
    P.append((id, title, statement, over, text, why, files, mech, level_note, observe))


prop("P01", "A written cell is stored with the value and type it was given",
     "A value written to a cell, with a declared type, with automatic typing or with a formula, is what a reader of the saved file finds in that cell: the same text, number, boolean, error, date or formula, with a type that fits it. Text is taken for a number, boolean or date only when it is one in the file format's own notation; everything else stays text. The last write to a cell counts and no other cell changes.",
     ["inputs", "histories"], "every text within the length bound, every declared type, every sequence of writes within the bound",
     "the tests write a handful of fixed values and never read the file back",
     [WS, SST, CONV], [("cell writing", WS + ": set_row_value_index_mut"), ("cell serialisation", WS + ": serialize_sheet_data"), ("number notation", CONV)],
     "texts up to the bound over printable ASCII and white space; number literals from an alphabet")
prop("P02", "A cell reference or index names exactly its cell, or is refused",
     "Writing through a column and row given as text such as B7, or as numbers, reaches exactly that cell and the ones to its right, up to column 16384 and row 1048576. Anything else given as a reference, and any position beyond the sheet, is refused with an error, never by a crash and never by writing elsewhere; a refused write leaves the sheet as it was.",
     ["inputs"], "every column and row number, every reference text within the length bound",
     "the tests use a few references such as A1; the limits and malformed references are never tried",
     [CONV, WS], [("reference conversion", CONV + ": get_column_ref, get_column_index, get_cell_int, get_cell_ref"), ("limits", WS + ": set_row_value_index_mut")],
     "all 16-bit columns and 32-bit rows; references up to the bound")
prop("P03", "Text is stored as it is, or refused, wherever it goes",
     "Every text handed over (cell texts, formulas, sheet names, font names, number format codes) is found unchanged in the saved file by any XML reader, whatever mark-up characters, quotes or white space it holds; text with characters that no XML part can hold is refused with an error and nothing of it is stored. Text and attribute values of an opened file mean the same after saving, whichever way the file spelled them (entities, character references, CDATA, line ends, encodings); a part in an encoding that is not supported is refused.",
     ["inputs"], "every text within the length bound over the stated alphabets, at every place that takes text",
     "the tests use plain letters only, which need no escaping",
     [WRI, PAR, TREE, WS], [("writing of text and attributes", WRI), ("reading of text and attributes", PAR), ("refusal of impossible characters", TREE)],
     "texts up to the bound; wide characters as literals")
prop("P04", "Shared strings: each cell shows its own text and the table is consistent",
     "Cells of the shared string type show the text that was written to them, also after opening and saving, and cells of an opened file keep showing their strings whatever is added beside them. Equal strings are stored once, the table's counts match its entries and every index in a cell lies inside of the table.",
     ["inputs", "histories"], "every mix of texts over a small alphabet in a few cells, every pair of forms of existing strings, over several saves",
     "the tests write one string per cell and never look at the table",
     [SST, WS], [("shared string table", SST), ("index into the table", WS + ": update_share_string")],
     "3 to 4 cells, texts of up to 2 characters over 'ab <'")
prop("P05", "Cells and everything else in an opened sheet survive an edit elsewhere",
     "Opening a workbook, changing one thing in a sheet and saving keeps every other cell of the sheet (value, type, style, formula with its kind, formatted text, extensions) and every other element of the sheet (views, protection, filters, merged cells, conditional formats, validations, links, page setup, drawings, tables, extensions) with its content. Elements stay in the order the format demands.",
     ["inputs", "programs"], "every form of cell and every kind of sheet content in the list, each with a free text, under every edit in the list",
     "the tests open a file and save it, but never compare what is in it",
     [WS, PAR, WRI, TREE, "rs/src/global/references/order_dictionary.rs"], [("reading of cells", WS + ": deserialize_sheet_data"), ("writing of cells", WS + ": serialize_sheet_data"), ("order of elements", TREE + ": order_child_mut")],
     "one fixed sheet with free texts, 9 forms of cells, 9 edits")
prop("P06", "Saved packages are consistent and any valid layout opens",
     "Every saved package is complete and consistent: each relationship target exists, each part has exactly one content type, each sheet of the list has its part, elements stand in the order their schema demands. A workbook whose parts lie in other folders, under other names or behind absolute targets opens all the same, shows its cells, and stays consistent when it is edited and saved.",
     ["inputs", "configurations"], "new workbooks with all kinds of content; every combination of folder, path, kind of target and relationship id in the list",
     "the tests save packages but never check relationships or content types; all opened files have the same layout",
     [OFF, REL, CT, XL, WBK], [("relationships", REL), ("content types", CT), ("package writing", OFF)],
     "3 folders x 3 paths x 3 kinds of target x 3 ids")
prop("P07", "The list of sheets follows every history of adding, renaming and deleting",
     "After any sequence of adding, renaming, deleting and opening sheets the workbook lists exactly the sheets that should be there, in order, under their names, before saving and after opening the saved file; each has its own id and its own part with its own cells. Adding a sheet under a name that exists opens that sheet; renaming to a name that is taken, or a sheet that does not exist, is refused with an error and changes nothing.",
     ["histories"], "every sequence of operations within the bound, with free names, on new and on opened workbooks",
     "the tests run one fixed sequence; orders and repetitions of operations are what breaks lists",
     [WBK, WS, XL, REL], [("sheet list", WBK + ": sheet_collection"), ("new sheet part", WS + ": get_sheet_file_name"), ("deleting", WS + ": delete_sheet_mut")],
     "3 to 4 operations, one-letter names")
prop("P08", "No write is lost, however sheet handles are opened and closed",
     "Rows written through a sheet handle are in the saved file, in whatever order handles on several sheets are opened, used and closed. Opening a sheet that is already open, and saving while a sheet is open, is an error instead of a loss of rows.",
     ["schedules", "histories"], "every interleaving of opening, writing and closing two sheets within the bound",
     "the tests open and close one sheet at a time in one order",
     [WS, OFF, XL, WBK], [("open parts", OFF + ": open and close of xml documents"), ("closing a handle", WS + ": Drop")],
     "4 to 5 steps over 2 sheets")
prop("P09", "Row properties are stored at their row and nowhere else",
     "Height, visibility, style and thick edges set for a row are found at that row in the saved file, also when the row has no cells, whatever the order of calls; setting them leaves cells and other rows as they are. Rows of an opened file keep every attribute that is not set anew, and a row beyond the sheet is refused.",
     ["inputs", "histories"], "every row number, every combination of flags, every sequence of settings within the bound, every form of row in the list",
     "the tests set one property on one row and never read it back",
     [WS, S + "models/worksheet.rs"], [("setting", WS + ": set_row_index_properties_mut"), ("writing", WS + ": serialize_sheet_data"), ("reading", WS + ": deserialize_sheet_data")],
     "one or two rows, heights of a list")
prop("P10", "Column properties apply to exactly the columns they name",
     "Width, visibility, style and fitting set for a column, by number or letters, are what the saved file says of that column and of no other; setting one column inside of a range of an opened file changes that column alone and keeps both sides of the range. The column list stays sorted, without overlap and inside the sheet, and a column beyond the sheet is refused.",
     ["inputs", "histories"], "every column number, every reference text within the bound, ranges with free ends",
     "the tests set one column of a new sheet and never read it back",
     [WS, CONV], [("setting and splitting", WS + ": set_column_index_properties_mut"), ("writing", WS + ": serialize_cols"), ("reading", WS + ": deserialize_cols")],
     "ranges inside the first 9 columns, 1 to 3 settings")
prop("P11", "Rows and cells are stored in order and the dimension covers them",
     "Whatever the order of writing, the saved sheet holds its rows and the cells of each row in ascending order, each at most once, and its dimension is the range from the first to the last used row and column, also for sheets of an opened file.",
     ["inputs", "histories"], "every sequence of writes within the bound at free positions",
     "the tests write in ascending order and never look at the dimension",
     [WS], [("ordered storage", WS + ": set_row_value_index_mut"), ("dimension", WS + ": serialize_dimension")],
     "1 to 3 writes over 7 rows x 6 columns")
prop("P12", "Window settings are stored and others stay as they are",
     "Visibility, minimisation, sheet tabs and scroll bars set for a workbook are what the saved file says, the last setting counts, and settings that were not touched keep their value, those of an opened file included (window position, size, tab ratio, further windows).",
     ["inputs", "histories"], "every sequence of settings within the bound, every pair of attributes of an opened file with free values",
     "the tests call each setting once and never read the file back",
     [WBK], [("window settings", WBK + ": load and save of workbook views")],
     "3 to 4 settings; two free attributes")
prop("P13", "Visibility of sheets and the active sheet follow what was asked for",
     "Hiding a sheet hides that sheet and no other, the active sheet is the one that was set or that the opened file names, and it stays the same sheet when others are deleted. Sheets of an opened file keep their visibility, and naming an unknown sheet is an error that changes nothing.",
     ["histories"], "every sequence of operations within the bound on three sheets in any state with any active sheet",
     "the tests hide or activate one sheet of a new workbook",
     [WBK], [("states", WBK + ": hide_sheet_mut"), ("active sheet", WBK + ": set_active_sheet_mut")],
     "3 sheets, 2 to 3 operations")
prop("P14", "Every style looks as it was set and no two styles are mixed up",
     "A cell, row or column with a style shows exactly the font, colours, fill, borders, alignment and number format that were set and defaults for the rest. Equal settings get the same style and different settings different ones, every style refers to entries that exist, and a custom format without code is refused and changes nothing.",
     ["inputs"], "every number format, every border style, colour and side, any two styles that differ in one aspect each, any two aspects in one style",
     "the tests create a few styles and never resolve them in the saved file",
     [STY, S + "models/style.rs"], [("style table", STY + ": get_style_id_mut"), ("writing", STY + ": save_content_file")],
     "two values per aspect, some of them free texts")
prop("P15", "Styles of an opened workbook are kept, also beside new ones",
     "Styles of an opened file look the same after saving, with everything the file says about them, and cells keep theirs; new styles are added beside them and look as set. Styles of a saved file are recognised again when it is opened and saved once more.",
     ["inputs", "histories"], "one rich style part of another program beside any new aspect; any two aspects through two saves",
     "the tests never open a file with styles and look at them",
     [STY], [("reading", STY + ": deserialize_*"), ("writing", STY + ": serialize_*")],
     "one fixed style part, two values per aspect")
prop("P16", "A malformed file is refused with an error and never crashes the program",
     "Opening and working on any file ends with a result or an error, never with a crash: files that are no package, packages that lack parts, parts that are cut off or have the wrong shape, and arbitrary text where numbers and references belong. A part that was cut off or is not well formed and a package of another kind are refused; a sheet that cannot be read is an error, leaves the other sheets usable and is saved as it was.",
     ["inputs"], "every text within the bound at 16 places, a list of bodies in place of each part, every cut of 7 parts within the bound, every single element or attribute of 9 parts removed, doubled, emptied or replaced",
     "the tests open well-formed files only",
     [PAR, OFF, WS, WBK, STY, SST, CC, CORE, CONV], [("reading", PAR), ("numbers and references", WS + ", " + STY + ", " + WBK)],
     "texts up to the bound at 16 places; fixed lists of shapes")
prop("P17", "A save that fails is an error and leaves the target as it was",
     "Saving either replaces the target file completely by the new package or reports an error and leaves the file that was there as it was, with nothing else left behind; saving over the file that was opened, or over any other file, works like saving to a new one.",
     ["fault_sequences"], "five ways for a save to fail (no room, room for a part, nothing to replace, a folder in the way, no folder), three files to save over",
     "the tests only save to fresh paths that work",
     [OFF, "rs/src/utils/file_handling.rs"], [("package writing", OFF + ": save_as")],
     "a failing write fails at once; the file system is a model, counterexamples run against the real one")
prop("P18", "Document properties are kept, and the time of change is set",
     "Title, author, time of creation and all other document properties of an opened file are kept on saving, whatever text they hold, and the time of the last change is set anew to a valid time. New files say when they were created and changed.",
     ["inputs"], "four forms of document properties with a free text",
     "the tests never look at the properties",
     [CORE], [("update of properties", CORE)],
     "title of 2 to 4 characters")
prop("P19", "Word and PowerPoint files are created, kept and saved without loss",
     "A new document or presentation is a consistent package with document properties that opens again. Every part, relationship and content type of an opened one is kept on saving, byte for byte where nothing is about it; files that are no package are refused, and a failed save leaves the target as it was.",
     ["inputs", "fault_sequences"], "new files, opened files with a free text, three ways to fail",
     "the tests open and save a file without comparing anything",
     [WORD, PPT, OFF, CORE], [("documents", WORD), ("presentations", PPT), ("package", OFF)],
     "fixed packages with a free text")
prop("P20", "Opening and saving changes nothing, and the calculation chain stays valid",
     "Opening a workbook and saving it without a change keeps what it says, and doing so again changes nothing at all but the time of change. The list of cells to calculate names only cells that have a formula, whatever was written, overwritten or deleted, and is kept as long as it fits.",
     ["histories"], "four ways of looking without changing; every sequence of edits within the bound on a workbook with a calculation chain",
     "the tests never open what they saved",
     [CC, XL, OFF, WBK, STY, SST], [("calculation chain", CC), ("flush on save", XL + ": save_as")],
     "one fixed package; 1 to 2 edits")
prop("P21", "Parts and workbook content the library does not manage are kept",
     "Whatever is edited, every part of an opened package that no operation is about keeps each of its bytes, its content type and its relationships, and every element of the main part other than the list of sheets and the window settings keeps its content and place.",
     ["inputs", "programs"], "every edit in the list on a package with unknown parts of free bytes and a main part with every element, with a free text",
     "the tests never compare an opened file with the saved one",
     [OFF, REL, CT, WBK], [("parts not opened", OFF), ("content types", CT), ("relationships", REL), ("workbook part", WBK)],
     "pairs of 9 edits, one fixed package with free bytes and texts")
prop("P22", "Calls of the foreign interface do what the library does, and report it",
     "Every exported function has the effect of the library's operation with the same arguments: the workbook saved after it says the same. It reports success exactly when the operation worked, hands an object out exactly then, reports every error with its text, and refuses missing arguments without any effect.",
     ["inputs", "histories"], "every sequence of calls within the bound with free names, every style of the list, every missing argument, sources and targets that fail",
     "no test calls the exported functions",
     ["rs_ffi/src/spreadsheet/excel.rs", "rs_ffi/src/document/word.rs", "rs_ffi/src/presentation/power_point.rs", "rs_ffi/src/utils.rs"],
     [("workbook calls", "rs_ffi/src/spreadsheet/excel.rs"), ("document calls", "rs_ffi/src/document/word.rs"), ("presentation calls", "rs_ffi/src/presentation/power_point.rs"), ("error texts", "rs_ffi/src/utils.rs: chain_error")],
     "2 to 3 calls with names of 1 to 2 characters, then saving; the tables that flatc generates and the flatbuffers crate are stand-ins")

NA = [
    ("F02", "Large sheets are written within bounded memory and time",
     "Memory and time for writing a sheet grow linearly with the number of its cells.",
     "time and memory are no assertion over the values a symbolic execution of the program computes"),
    ("F03", "Formulas and names follow renamed and deleted sheets",
     "Formulas, defined names and links that mention a sheet keep naming it after it is renamed.",
     "the library has no code that reads formulas or names, so there is nothing to execute: it keeps them as they are (decided under P01, P05, P21)"),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as h:
        for (id, title, st, over, text, why, files, mech, note, obs) in P:
            assert len(title) <= 80, (id, len(title))
            assert st.count(". ") <= 2, id
            h.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [obs]}}) + "\n")
        for (id, title, st, why) in NA:
            h.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": "every input"}, "why_tests_cant": "the tests do not look at it",
                                "anchors": {"files": [WS], "mechanism": [{"name": "see DESIGN.md", "where": WS}]}}) + "\n")
    checks = []
    for (id, title, st, over, text, why, files, mech, note, obs) in P:
        checks.append({"property": id, "quick_cmd": "python3-vt checks/run.py %s quick" % id, "thorough_cmd": "python3-vt checks/run.py %s thorough" % id,
                       "technique": "symbolic execution of the library's MIR (compiler's intermediate representation, regenerated from /repo on every run) with z3 deciding every branch and assertion; counterexamples replayed on the compiled code",
                       "level": "model_checking",
                       "level_note": "bounded: " + note + "; dependencies (std, zip, quick_xml, chrono, flate2) are models checked against the compiled code on every run"})
    man = {"version": 1, "setup_cmd": "python3-vt checks/setup.py", "checks": checks, "not_applicable": [{"property": id, "reason": why} for (id, _, _, why) in NA],
           "notes": "no hooks in /repo: the harness uses the public interface only. Scenarios of each property: checks/props.py; bounds: DESIGN.md and the evidence files."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as h:
        json.dump(man, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    main()

# the table of DESIGN.md
p = os.path.join(ROOT, "DESIGN.md")
d = open(p).read()
i = d.index("| id | scenarios |")
j = d.index("\n\n", i)
d = d[:i] + "| id | scenarios |\n|---|---|\n" + "\n".join("| %s | %s |" % (k, ", ".join("`%s`" % x for x in v)) for k, v in sorted(props.PLAN.items())) + d[j:]
open(p, "w").write(d)
