//! Larger workbooks: more of everything than the other scenarios have, with free choices inside.
use super::book::{esc, make, sheet, sst, sst_counted, workbook, Make, RNS};
use super::cells::TEXT;
use super::common::*;
use crate::obs::{self, Book, Kind};
use crate::{pkg, sym};

const NUMBERS: [&str; 26] = [
    "0", "-0", "1", "-1", "10", "100", "0.1", "-0.05", "1.50", "007", "3.14159265358979", "1E+10", "1e-7", "2.5E-3", "123456789", "1234567890123", "123456789012345678", "4294967296", "18446744073709551616",
    "9007199254740993", "0.30000000000000004", "1e308", "1e-320", "99999999999999999999.5", "16777217", "0.000001",
];
const DATES: [&str; 5] = ["2024-01-02", "2024-01-02T03:04:05", "2024-01-02T03:04:05Z", "2024-12-31T23:59:59.999", "1899-12-31"];
/// one value among others of its row, saved, opened, written beside and saved again
pub fn values() {
    let k = sym::choose(4);
    let at = sym::choose(3);
    let again = sym::bool();
    let (t, ty, kind) = match k {
        0 => (NUMBERS[sym::choose(NUMBERS.len())].to_string(), CellDataType::Number, Kind::Number),
        1 => (NUMBERS[sym::choose(NUMBERS.len())].to_string(), CellDataType::Auto, Kind::Number),
        2 => (DATES[sym::choose(DATES.len())].to_string(), CellDataType::Date, Kind::Date),
        _ => {
            let i = sym::choose(8);
            let t = ["#N/A", "#DIV/0!", "#REF!", "#VALUE!", "#NAME?", "#NUM!", "#NULL!", "#GETTING_DATA"][i];
            (t.to_string(), CellDataType::Error, Kind::Error)
        }
    };
    let mut x = blank();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        let mut cells = vec![cell("left", CellDataType::ShareString), cell("mid", CellDataType::InlineString), num("77")];
        cells[at] = cell(&t, ty);
        need(ws.set_row_value_ref_mut("Y3", cells), "write cells");
    }
    let mut b = save(x, "o.xlsx");
    if again {
        let mut y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
        {
            let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
            need(ws.set_row_value_ref_mut("A3", vec![num("1")]), "write another cell");
        }
        b = save(y, "p.xlsx");
    }
    for i in 0..3 {
        let got = b.at("Data", ["Y3", "Z3", "AA3"][i]);
        if i == at {
            sym::check(got.0 == kind, "a value is stored with the type it was given");
            same(&got.1, &t, "a value reads back as written");
        } else {
            let want = [(Kind::Text, "left"), (Kind::Text, "mid"), (Kind::Number, "77")];
            sym::check(got.0 == want[i].0 && got.1 == want[i].1, "other cells of the row hold what was written");
        }
    }
    sym::check(b.cells(b.sheet("Data").unwrap()) == 3 + again as usize, "no other cell appears");
    sym::reached();
}
/// long texts with a free character somewhere, in every kind of cell
pub fn long() {
    let n = [31usize, 32, 33, 127, 128, 255, 256, 257, 1000, 8193, 32767][sym::choose(sym::bound(8, 11))];
    let c = sym::text(1, TEXT);
    let at = [0, n / 2, n - 1][sym::choose(3)];
    let k = sym::choose(5);
    let again = sym::choose(sym::bound(1, 2)) == 1;
    let mut t = "x".repeat(at);
    t.push_str(&c);
    t.push_str(&"y".repeat(n - 1 - at));
    let ty = [CellDataType::ShareString, CellDataType::InlineString, CellDataType::String, CellDataType::Auto, CellDataType::Number][k];
    let mut x = blank();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        let mut v = cell(&t, ty);
        if k == 4 {
            v = num("1");
            v.formula = Some(t.clone());
        }
        need(ws.set_row_value_ref_mut("B2", vec![v]), "write a cell");
    }
    let mut b = save(x, "o.xlsx");
    if again {
        let mut y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
        {
            let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
            need(ws.set_row_value_ref_mut("A1", vec![num("1")]), "write another cell");
        }
        b = save(y, "p.xlsx");
    }
    if k == 4 {
        let f = b.sheet("Data").and_then(|s| b.cell(s, "B2")).and_then(|c| c.kid("f"));
        match f {
            Some(f) => same(&f.text, &t, "a long formula reads back as written"),
            None => sym::check(false, "a long formula reads back as written"),
        }
    } else {
        let got = b.at("Data", "B2");
        sym::check(got.0 == Kind::Text, "long text is stored as text");
        same(&got.1, &t, "long text reads back as written");
    }
    sym::reached();
}
/// a table of many strings, in the file and written anew
pub fn strings() {
    let loaded = sym::bool();
    let n = 12;
    let mut x;
    if loaded {
        let mut m = make();
        let mut items = String::new();
        let mut cells = String::new();
        for i in 0..n {
            items.push_str(&format!("<si><t>s{}</t></si>", i));
            cells.push_str(&format!("<row r=\"{}\"><c r=\"A{}\" t=\"s\"><v>{}</v></c></row>", i + 1, i + 1, n - 1 - i));
        }
        m.sst = Some(if sym::bool() { sst_counted(n, &items) } else { sst(&items) });
        m.sheet1 = sheet(&format!("<sheetData>{cells}</sheetData>"));
        let p = pkg::path("a.xlsx");
        pkg::write(&p, &m.parts());
        x = open(&p, "a valid workbook opens");
    } else {
        x = blank();
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        for i in 0..n {
            need(ws.set_row_value_index_mut(i as u32 + 1, 1, vec![cell(&format!("s{}", n - 1 - i), CellDataType::ShareString)]), "write a cell");
        }
    }
    let len = sym::choose(3);
    let t = format!("{}{}", ["s", "S", " s"][sym::choose(3)], sym::text(len, "0123 "));
    let over = sym::choose(3);
    {
        let mut ws = need(x.get_worksheet_mut("Data".to_string()), "a sheet of the list can be opened");
        need(ws.set_row_value_index_mut(20, 2, vec![cell(&t, CellDataType::ShareString), cell("s10", CellDataType::ShareString), cell(&t, CellDataType::ShareString)]), "write cells");
        match over {
            0 => {}
            1 => need(ws.set_row_value_index_mut(3, 1, vec![cell(&t, CellDataType::ShareString)]), "write a cell"),
            _ => need(ws.set_row_value_index_mut(3, 1, vec![num("5")]), "write a cell"),
        }
    }
    let b = save(x, "o.xlsx");
    for i in 0..n {
        let got = b.at("Data", &format!("A{}", i + 1));
        if i == 2 && over > 0 {
            sym::check(got.0 == if over == 1 { Kind::Text } else { Kind::Number }, "a cell holds the last value written to it");
            same(&got.1, if over == 1 { &t } else { "5" }, "a cell holds the last value written to it");
        } else {
            sym::check(got == (Kind::Text, format!("s{}", n - 1 - i)), "every cell shows its own string");
        }
    }
    for r in ["B20", "D20"] {
        let got = b.at("Data", r);
        sym::check(got.0 == Kind::Text, "every cell shows its own string");
        same(&got.1, &t, "every cell shows its own string");
    }
    sym::check(b.at("Data", "C20") == (Kind::Text, "s10".to_string()), "every cell shows its own string");
    table(&b);
    obs::consistent(&b.parts);
    sym::reached();
}
/// the string table holds each string once and its counts are right
fn table(b: &Book) {
    for r in obs::rels(&b.parts, &b.wb_path) {
        if !r.ty.ends_with("/sharedStrings") {
            continue;
        }
        match obs::doc(&b.parts, &r.target) {
            None => sym::check(false, "the string table is readable"),
            Some(d) => {
                let n = d.kids.len();
                sym::check(d.attr("uniqueCount").map(|c| c == n.to_string()).unwrap_or(true), "the counts of the string table match it");
                for i in 0..n {
                    for j in 0..i {
                        sym::check(obs::item_text(&d.kids[i]) != obs::item_text(&d.kids[j]), "equal strings are stored once");
                    }
                }
            }
        }
    }
}
/// a workbook with eleven sheets, their ids and parts out of step with their order
fn eleven() -> Make {
    let mut s = String::new();
    let mut m = make();
    for i in 1..12 {
        s.push_str(&format!("<sheet name=\"S{}\" sheetId=\"{}\" r:id=\"rId{}\"/>", i, 30 - i, i));
        let body = sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>{}</v></c></row></sheetData>", 100 + i));
        if i == 1 {
            m.sheet1 = body;
        } else {
            m.extra.push((format!("xl/worksheets/sheet{i}.xml"), body.into_bytes()));
            m.extra_types.push_str(&format!("<Override PartName=\"/xl/worksheets/sheet{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/>"));
            m.extra_wb_rels.push_str(&format!("<Relationship Id=\"rId{i}\" Type=\"{RNS}/worksheet\" Target=\"worksheets/sheet{i}.xml\"/>"));
        }
    }
    m.workbook = workbook(&format!("<bookViews><workbookView xWindow=\"1\" activeTab=\"9\"/></bookViews><sheets>{s}</sheets>"));
    m
}
struct Tab {
    name: String,
    mark: u32,
    id: u32,
    hidden: bool,
}
/// operations on a workbook with more than ten sheets
pub fn sheets() {
    let mut model: Vec<Tab> = (1..12).map(|i| Tab { name: format!("S{}", i), mark: 100 + i, id: 30 - i, hidden: false }).collect();
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &eleven().parts());
    let mut x = open(&p, "a valid workbook opens");
    let mut active = "S10".to_string();
    for step in 0..sym::bound(1, 2) {
        let op = sym::choose(7);
        let i = if op == 0 || op == 1 { 0 } else { sym::choose(model.len()) };
        match op {
            0 | 1 => {
                let mark = 500 + step as u32;
                {
                    let mut ws = need(x.add_sheet_mut(if op == 0 { None } else { Some("New".to_string()) }), "a sheet can be added");
                    need(ws.set_row_value_index_mut(1, 1, vec![num(&mark.to_string())]), "write a cell");
                }
                let l = need(x.list_sheet_names(), "sheet names can be listed");
                if op == 0 || !model.iter().any(|t| t.name == "New") {
                    let name = l.last().cloned().unwrap_or_default();
                    sym::check(model.iter().all(|t| t.name != name), "a sheet added without a name gets a name of its own");
                    model.push(Tab { name, mark, id: 0, hidden: false });
                } else if let Some(t) = model.iter_mut().find(|t| t.name == "New") {
                    t.mark = mark;
                }
            }
            2 => {
                let to = format!("R{}", step);
                need(x.rename_sheet_name_mut(model[i].name.clone(), to.clone()), "a sheet can be renamed");
                if active == model[i].name {
                    active = to.clone();
                }
                model[i].name = to;
            }
            3 => {
                let ws = need(x.get_worksheet_mut(model[i].name.clone()), "a sheet of the list can be opened");
                need(ws.delete_sheet_mut(), "a sheet can be deleted");
                if active == model[i].name {
                    active = String::new();
                }
                model.remove(i);
            }
            4 => {
                need(x.hide_sheet_mut(model[i].name.clone()), "a sheet can be hidden");
                model[i].hidden = true;
            }
            5 => {
                need(x.set_active_sheet_mut(model[i].name.clone()), "a sheet can be made active");
                active = model[i].name.clone();
            }
            _ => {
                let mark = 700 + step as u32;
                let mut ws = need(x.get_worksheet_mut(model[i].name.clone()), "a sheet of the list can be opened");
                need(ws.set_row_value_index_mut(1, 1, vec![num(&mark.to_string())]), "write a cell");
                model[i].mark = mark;
            }
        }
    }
    // and one more of its own after opening the saved file
    let q = pkg::path("b.xlsx");
    need(x.save_as(&q), "saving succeeds");
    check_tabs(&load(&q), &model, &active);
    let mut y = open(&q, "a saved workbook opens again");
    {
        let mut ws = need(y.add_sheet_mut(None), "a sheet can be added");
        need(ws.set_row_value_index_mut(1, 1, vec![num("900")]), "write a cell");
    }
    let name = need(y.list_sheet_names(), "sheet names can be listed").last().cloned().unwrap_or_default();
    sym::check(model.iter().all(|t| t.name != name), "a sheet added without a name gets a name of its own");
    model.push(Tab { name, mark: 900, id: 0, hidden: false });
    check_tabs(&save(y, "c.xlsx"), &model, &active);
    sym::reached();
}
fn check_tabs(b: &Book, model: &[Tab], active: &str) {
    sym::check(b.sheets.len() == model.len(), "the saved workbook has exactly the sheets of the list");
    for (s, t) in b.sheets.iter().zip(model.iter()) {
        sym::check(s.name == t.name, "the saved sheets are in order and have the names given");
        let c = b.cell(s, "A1").map(|c| b.value(c));
        sym::check(c == Some((Kind::Number, t.mark.to_string())), "every sheet holds what was written to it");
        sym::check((s.state == "hidden") == t.hidden, "sheets are hidden exactly when told so");
        sym::check(t.id == 0 || s.sheet_id == t.id.to_string(), "sheets of an opened workbook keep their identifier");
    }
    for i in 0..b.sheets.len() {
        for j in 0..i {
            sym::check(b.sheets[i].sheet_id != b.sheets[j].sheet_id, "each sheet has an identifier of its own");
            sym::check(b.sheets[i].path != b.sheets[j].path, "each sheet has a part of its own");
        }
    }
    let t = b.wb.kid("bookViews").and_then(|v| v.kids.first()).and_then(|v| v.attr("activeTab")).unwrap_or("0").parse::<usize>().unwrap_or(usize::MAX);
    match b.sheets.get(t) {
        None => sym::check(false, "the active sheet exists"),
        Some(s) => sym::check(active.is_empty() || s.name == active, "the active sheet stays the one chosen"),
    }
    obs::consistent(&b.parts);
    obs::workbook_consistent(b);
}
/// an edit at any place of a grid of cells of every kind leaves all other cells as they are
pub fn grid() {
    let c = sym::text(1, "ab<& ");
    let e = esc(&c);
    let forms = |i: usize, r: &str| -> String {
        match i {
            0 => format!("<c r=\"{r}\"><v>1.25</v></c>"),
            1 => format!("<c r=\"{r}\" t=\"s\" s=\"1\"><v>0</v></c>"),
            2 => format!("<c r=\"{r}\" t=\"inlineStr\"><is><t xml:space=\"preserve\">{e}</t></is></c>"),
            3 => format!("<c r=\"{r}\" t=\"str\"><f>{e}</f><v>t</v></c>"),
            4 => format!("<c r=\"{r}\" t=\"b\"><v>1</v></c>"),
            5 => format!("<c r=\"{r}\" t=\"e\"><v>#N/A</v></c>"),
            6 => format!("<c r=\"{r}\" s=\"1\"/>"),
            7 => format!("<c r=\"{r}\" t=\"s\"><v>1</v></c>"),
            8 => format!("<c r=\"{r}\"><f t=\"shared\" ref=\"{r}:{r}\" si=\"0\">A1</f><v>0</v></c>"),
            9 => format!("<c r=\"{r}\" cm=\"1\" t=\"d\"><v>2024-01-02</v></c>"),
            _ => format!("<c r=\"{r}\" s=\"1\" t=\"n\"><v>-7</v></c>"),
        }
    };
    let cols = ["B", "C", "Z", "AA"];
    let nums = [2u16, 3, 26, 27];
    let rows = [1u32, 2, 9, 10, 11];
    let mut body = String::new();
    let mut i = 0;
    for r in rows {
        body.push_str(&format!("<row r=\"{r}\">"));
        for c in cols {
            body.push_str(&forms(i % 11, &format!("{c}{r}")));
            i += 1;
        }
        body.push_str("</row>");
    }
    let mut m = make();
    m.styles = Some(super::book::styles(super::sheet::TWO_STYLES));
    m.sst = Some(sst(&format!("<si><t>zero</t></si><si><r><t xml:space=\"preserve\">{e}</t></r><r><rPr><b/></rPr><t>x</t></r></si>")));
    m.sheet1 = sheet(&format!("<sheetData>{body}</sheetData>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let er = sym::choose(6);
    let ec = sym::choose(5);
    let row = [1u32, 2, 9, 10, 11, 100][er];
    let col = [2u16, 3, 26, 27, 1][ec];
    let len = if sym::bool() { 2 } else { 1 };
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_index_mut(row, col, vec![cell("zero", CellDataType::ShareString), num("5")][..len].to_vec()), "write cells");
    }
    let b = save(y, "b.xlsx");
    let (s0, s1) = (first.sheet("Data").unwrap(), b.sheet("Data").unwrap());
    let mut kept = 0;
    for r in rows {
        for (k, c) in cols.iter().enumerate() {
            if r == row && nums[k] >= col && nums[k] < col + len as u16 {
                continue;
            }
            kept += 1;
            let at = format!("{c}{r}");
            match (first.cell(s0, &at), b.cell(s1, &at)) {
                (Some(o), Some(n)) => {
                    same_value(&b.value(n), &first.value(o), "cells of an opened sheet keep their value");
                    sym::check(o.attr("s").unwrap_or("0") == n.attr("s").unwrap_or("0") && o.attr("cm") == n.attr("cm"), "cells of an opened sheet keep their style");
                    same_node_opt(n.kid("f"), o.kid("f"), "cells of an opened sheet keep their formula");
                    if o.attr("t") == Some("s") {
                        sym::check(n.attr("t") == Some("s") && o.kid("v").map(|v| &v.text) == n.kid("v").map(|v| &v.text), "cells of an opened sheet keep their string");
                    }
                }
                _ => sym::check(false, "cells of an opened sheet stay"),
            }
        }
    }
    sym::check(b.cells(s1) == kept + len, "no other cell appears");
    let at = format!("{}{}", ["B", "C", "Z", "AA", "A"][ec], row);
    sym::check(b.at("Data", &at) == (Kind::Text, "zero".to_string()), "the new cell is stored");
    sym::check(obs::ordered(s1), "rows and cells are in ascending order");
    sym::reached();
}
/// more strings, rows and columns than a byte counts
pub fn wide() {
    let n = 260;
    let mut m = make();
    let (mut items, mut cells, mut rows) = (String::new(), String::new(), String::new());
    for i in 0..n {
        items.push_str(&format!("<si><t>s{i}</t></si>"));
        cells.push_str(&format!("<c r=\"{}1\" t=\"s\"><v>{}</v></c>", letters(i + 1), n - 1 - i));
        if i > 0 {
            rows.push_str(&format!("<row r=\"{}\"><c r=\"B{}\"><v>{i}</v></c></row>", i + 1, i + 1));
        }
    }
    m.sst = Some(sst(&items));
    m.sheet1 = sheet(&format!("<sheetData><row r=\"1\">{cells}</row>{rows}</sheetData>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut x = open(&p, "a valid workbook opens");
    let k = sym::choose(5);
    let t = ["new", "s0", "s255", "s256", "s259"][k];
    let few = k > 0 && sym::bound(0, 1) == 0;
    let row = [256u32, 1, 65537, 2, 255, 257, 260, 261, 65536][sym::choose(if few { 3 } else { 9 })];
    let col = [256u16, 2, 261, 1, 255, 257, 260][sym::choose(if few { 3 } else { 7 })];
    {
        let mut ws = need(x.get_worksheet_mut("Data".to_string()), "a sheet of the list can be opened");
        need(ws.set_row_value_index_mut(row, col, vec![cell(t, CellDataType::ShareString)]), "write a cell");
    }
    let b = save(x, "o.xlsx");
    let s = need(b.sheet("Data").ok_or(()), "the saved workbook has the sheet");
    sym::check(obs::ordered(s), "rows and cells are in order");
    sym::check(b.at("Data", &format!("{}{}", letters(col as usize), row)) == (Kind::Text, t.to_string()), "a cell holds the last value written to it");
    for i in [0, 1, 3, 254, 255, 256, 258, 259] {
        if row != 1 || col as usize != i + 1 {
            sym::check(b.at("Data", &format!("{}1", letters(i + 1))) == (Kind::Text, format!("s{}", n - 1 - i)), "every cell shows its own string");
        }
        if i > 0 && (row as usize != i + 1 || col != 2) {
            sym::check(b.at("Data", &format!("B{}", i + 1)) == (Kind::Number, i.to_string()), "other cells stay");
        }
    }
    let over = (row == 1 && col <= 260) || (row <= 260 && col == 2);
    sym::check(b.cells(s) == n + n - 1 + !over as usize, "nothing else is in the sheet");
    sym::reached();
}
fn letters(mut n: usize) -> String {
    let mut s = String::new();
    while n > 0 {
        s.insert(0, (b'A' + ((n - 1) % 26) as u8) as char);
        n = (n - 1) / 26;
    }
    s
}
/// more sheets than a byte counts
pub fn hundreds() {
    let n = 260;
    let mut m = make();
    let (mut list, mut types, mut rels) = (String::new(), String::new(), String::new());
    for i in 1..n + 1 {
        list.push_str(&format!("<sheet name=\"S{i}\" sheetId=\"{i}\" r:id=\"rId{}\"/>", if i == 1 { 1 } else { 500 + i }));
        let body = sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>{i}</v></c></row></sheetData>"));
        if i == 1 {
            m.sheet1 = body;
            continue;
        }
        types.push_str(&format!("<Override PartName=\"/xl/worksheets/s{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/>"));
        rels.push_str(&format!("<Relationship Id=\"rId{}\" Type=\"{RNS}/worksheet\" Target=\"worksheets/s{i}.xml\"/>", 500 + i));
        m.extra.push((format!("xl/worksheets/s{i}.xml"), body.into_bytes()));
    }
    m.workbook = workbook(&format!("<sheets>{list}</sheets>"));
    m.extra_types = types;
    m.extra_wb_rels = rels;
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut x = open(&p, "a valid workbook opens");
    let i = [1, 2, 255, 256, 257, 259, 260][sym::choose(7)];
    let mut names: Vec<String> = (1..n + 1).map(|i| format!("S{i}")).collect();
    let mut marks: Vec<usize> = (1..n + 1).collect();
    let mut active = 0;
    match sym::choose(5) {
        0 => {
            {
                let mut ws = need(x.add_sheet_mut(Some("New".to_string())), "a sheet can be added");
                need(ws.set_row_value_index_mut(1, 1, vec![num("999")]), "write a cell");
            }
            names.push("New".to_string());
            marks.push(999);
        }
        1 => {
            need(x.rename_sheet_name_mut(format!("S{i}"), "R".to_string()), "a sheet can be renamed");
            names[i - 1] = "R".to_string();
        }
        2 => {
            let ws = need(x.get_worksheet_mut(format!("S{i}")), "a sheet of the list can be opened");
            need(ws.delete_sheet_mut(), "a sheet can be deleted");
            names.remove(i - 1);
            marks.remove(i - 1);
        }
        3 => {
            need(x.set_active_sheet_mut(format!("S{i}")), "a sheet can be made active");
            active = i - 1;
        }
        _ => {
            let mut ws = need(x.get_worksheet_mut(format!("S{i}")), "a sheet of the list can be opened");
            need(ws.set_row_value_index_mut(1, 1, vec![num("999")]), "write a cell");
            marks[i - 1] = 999;
        }
    }
    let b = save(x, "o.xlsx");
    sym::check(b.sheets.len() == names.len(), "the saved workbook has exactly the sheets of the list");
    let last = names.len() - 1;
    for k in [0, 1, 2, (i + 300 - 2) % 300, i - 1, i, 254, 255, 256, 257, last] {
        if k > last {
            continue;
        }
        let s = &b.sheets[k];
        sym::check(s.name == names[k], "the saved sheets are in order and have the names given");
        sym::check(b.at(&names[k], "A1") == (Kind::Number, marks[k].to_string()), "every sheet keeps its content");
    }
    let view = b.wb.kid("bookViews").and_then(|v| v.kid("workbookView")).and_then(|v| v.attr("activeTab")).unwrap_or("0").to_string();
    sym::check(view == active.to_string(), "the active sheet is the one set");
    sym::reached();
}
