//! Valid but rarely seen forms of parts, and parts that cannot be read.
use super::book::{esc, make, sheet, sst, styles, workbook, Make, RNS};
use super::cells::TEXT;
use super::common::*;
use crate::obs::{self, Kind};
use crate::xml::Node;
use crate::{pkg, sym};

const EXT: &str = "<extLst><ext uri=\"{8C0}\" xmlns:p=\"urn:p\"><p:a k=\"@\">@</p:a></ext></extLst>";

fn ext_of(n: Option<&Node>) -> Option<(String, String)> {
    let a = n?.kid("extLst")?.kid("ext")?.kids.first()?;
    Some((a.attr("k").unwrap_or("").to_string(), a.text.clone()))
}
/// extensions inside of rows, cells, views and the other containers of a sheet are kept, and none is taken for something else
pub fn extensions() {
    let n = sym::choose(2);
    let t = sym::text(n, TEXT);
    let x = EXT.replace('@', &esc(&t));
    let place = sym::choose(6);
    let at = |k: usize| if k == place { x.as_str() } else { "" };
    let body = format!(
        "<sheetViews><sheetView workbookViewId=\"0\">{}</sheetView>{}</sheetViews><cols><col min=\"1\" max=\"2\" width=\"5\" customWidth=\"1\"/></cols>{}<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c><c r=\"B1\"><v>2</v>{}</c>{}</row><row r=\"3\">{}</row></sheetData>",
        at(0), at(1), if sym::bool() { "<cols><col min=\"4\" max=\"5\" width=\"7\" customWidth=\"1\"/></cols>" } else { "" }, at(2), at(3), at(4),
    );
    let two = body.contains("min=\"4\"");
    let body = if place == 5 { format!("{body}<pageMargins left=\"1\" right=\"1\" top=\"1\" bottom=\"1\" header=\"1\" footer=\"1\"/>{x}") } else { body };
    let mut m = make();
    m.sheet1 = sheet(&body);
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    let e = sym::choose(5);
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a sheet with extensions opens");
        match e {
            0 => {}
            1 => need(ws.set_row_value_ref_mut("A1", vec![num("8")]), "write a cell"),
            2 => need(ws.set_row_value_ref_mut("C1", vec![num("8")]), "write a cell"),
            3 => {
                let mut r = RowProperties::default();
                r.height = Some(30.0);
                need(ws.set_row_index_properties_mut(&1, r), "set a row");
            }
            _ => need(ws.set_row_value_ref_mut("B3", vec![num("8")]), "write a cell"),
        }
    }
    let b = save(y, "b.xlsx");
    let s = b.sheet("Data").unwrap();
    let eight = (Kind::Number, "8".to_string());
    sym::check(b.at("Data", "A1") == if e == 1 { eight.clone() } else { (Kind::Number, "1".to_string()) }, "cells of an opened sheet are kept");
    sym::check(b.at("Data", "B1") == (Kind::Number, "2".to_string()), "cells of an opened sheet are kept");
    sym::check(b.at("Data", "C1").1 == if e == 2 { "8" } else { "" }, "no cell appears by itself");
    sym::check(b.at("Data", "B3").1 == if e == 4 { "8" } else { "" }, "no cell appears by itself");
    sym::check(b.cells(s) == if e == 2 || e == 4 { 3 } else { 2 }, "no cell appears by itself");
    let view = s.root.kid("sheetViews");
    let holder = match place {
        0 => view.and_then(|v| v.kid("sheetView")),
        1 => view,
        2 => b.cell(s, "B1"),
        3 => b.row(s, "1"),
        4 => b.row(s, "3"),
        _ => Some(&s.root),
    };
    match ext_of(holder) {
        Some((k, v)) => {
            same(&k, &t, "an extension is kept in its place");
            same(&v, &t, "an extension is kept in its place");
            sym::check(holder.and_then(|h| h.kids.last()).map(|k| k.name == "extLst") == Some(true), "an extension stands last");
        }
        None => sym::check(false, "an extension is kept in its place"),
    }
    let mut cols = Vec::new();
    for c in s.root.all("cols") {
        for k in &c.kids {
            cols.push((k.attr("min").unwrap_or(""), k.attr("max").unwrap_or(""), k.attr("width").unwrap_or("")));
        }
    }
    sym::check(cols == if two { vec![("1", "2", "5"), ("4", "5", "7")] } else { vec![("1", "2", "5")] }, "the columns of every list of columns are kept");
    super::pack::in_order(&s.root, &super::pack::SHEET_ORDER);
    sym::reached();
}

/// the cells of a shared formula keep it when the one that holds its text is overwritten
pub fn shared_master() {
    let at = ["B2", "B3", "B4", "A2", "B5"][sym::choose(5)];
    let mut m = make();
    m.sheet1 = sheet("<sheetData><row r=\"2\"><c r=\"B2\"><f t=\"shared\" ref=\"B2:B4\" si=\"0\">A1*2</f><v>1</v></c></row><row r=\"3\"><c r=\"B3\"><f t=\"shared\" si=\"0\"/><v>2</v></c></row><row r=\"4\"><c r=\"B4\"><f t=\"shared\" si=\"0\"/><v>3</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut(at, vec![num("8")]), "write a cell");
    }
    let b = save(y, "b.xlsx");
    let s = b.sheet("Data").unwrap();
    let mut text = false;
    let mut users = 0;
    for r in ["B2", "B3", "B4"] {
        if r == at {
            continue;
        }
        match b.cell(s, r).and_then(|c| c.kid("f")) {
            Some(f) => {
                users += 1;
                text |= !f.text.is_empty();
                sym::check(f.attr("t") == Some("shared") && f.attr("si") == Some("0"), "a shared formula is kept");
            }
            None => sym::check(false, "a shared formula is kept"),
        }
    }
    if at == "B2" {
        sym::check(users == 0 || text, "the cells of a shared formula keep it when the one that holds its text is overwritten");
    } else {
        sym::check(text, "a shared formula is kept");
    }
    sym::reached();
}

/// two sheets, the first with this content and these relationships
fn pair(body: String, rels: Option<String>) -> Make {
    let mut m = make();
    m.workbook = workbook("<sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/><sheet name=\"Other\" sheetId=\"5\" r:id=\"rId50\"/></sheets>");
    m.sheet1 = body;
    m.sst = Some(sst("<si><t>zero</t></si>"));
    m.extra.push(("xl/worksheets/other.xml".to_string(), sheet("<sheetData/>").into_bytes()));
    if let Some(r) = rels {
        m.extra.push(("xl/worksheets/_rels/sheet1.xml.rels".to_string(), r.into_bytes()));
        m.extra.push(("xl/drawings/drawing1.xml".to_string(), b"<a/>".to_vec()));
        m.extra_types.push_str("<Override PartName=\"/xl/drawings/drawing1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.drawing+xml\"/>");
    }
    m.extra_types.push_str("<Override PartName=\"/xl/worksheets/other.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/>");
    m.extra_wb_rels = format!("<Relationship Id=\"rId50\" Type=\"{RNS}/worksheet\" Target=\"worksheets/other.xml\"/>");
    m
}
/// a sheet that cannot be read is an error, and it is saved as it was
pub fn unreadable() {
    const ROW: &str = "<row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c></row>";
    let k = sym::choose(12);
    let v = sym::text(1, "x-");
    let mut rels = None;
    let body = match k {
        0 => sheet(&format!("<sheetViews><sheetView workbookViewId=\"0\" zoomScale=\"{v}\"/></sheetViews><sheetData>{ROW}</sheetData>")),
        1 => sheet(&format!("<sheetViews><sheetView/></sheetViews><sheetData>{ROW}</sheetData>")),
        2 => sheet(&format!("<sheetData>{ROW}<row r=\"{v}\"/></sheetData>")),
        3 => sheet(&format!("<sheetData>{ROW}<row r=\"0\"/></sheetData>")),
        4 => sheet(&format!("<sheetData>{ROW}<row r=\"2\"><c r=\"A2\" s=\"{v}\"/></row></sheetData>")),
        5 => sheet(&format!("<sheetData>{ROW}<row r=\"2\"><c r=\"2{v}\"/></row></sheetData>")),
        6 => sheet(&format!("<cols><col min=\"{v}\" max=\"2\"/></cols><sheetData>{ROW}</sheetData>")),
        7 => sheet(&format!("<sheetData>{ROW}</sheetData>")).replace("</row>", ""),
        8 => sheet(&format!("<sheetData>{ROW}<row r=\"2\" ht=\"{v}\" customHeight=\"1\"/></sheetData>")),
        9 => sheet(&format!("<sheetData>{ROW}<row r=\"2\" s=\"{v}\" customFormat=\"1\"/></sheetData>")),
        _ => {
            let id = if k == 10 { "" } else { " Id=\"rId1\"" };
            let end = if k == 10 { "</Relationships>" } else { "" };
            rels = Some(format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship{id} Type=\"{RNS}/drawing\" Target=\"../drawings/drawing1.xml\"/>{end}"));
            sheet(&format!("<sheetData>{ROW}</sheetData><drawing r:id=\"rId1\"/>"))
        }
    };
    let p = pkg::path("a.xlsx");
    let before = pair(body, rels).parts();
    pkg::write(&p, &before);
    let mut y = open(&p, "a workbook with an odd sheet opens");
    sym::check(y.get_worksheet_mut("Data".to_string()).is_err(), "a sheet that cannot be read is an error");
    if sym::bool() {
        sym::check(y.get_worksheet_mut("Data".to_string()).is_err(), "a sheet that cannot be read is an error");
        sym::check(y.add_sheet_mut(Some("Data".to_string())).is_err(), "a sheet that cannot be read is an error");
    }
    {
        let mut ws = need(y.get_worksheet_mut("Other".to_string()), "the other sheets open");
        need(ws.set_row_value_ref_mut("A1", vec![num("8")]), "write a cell");
    }
    let l = need(y.list_sheet_names(), "sheets are listed");
    sym::check(l == ["Data", "Other"], "sheets are listed");
    let q = pkg::path("b.xlsx");
    need(y.save_as(&q), "saving succeeds");
    match pkg::read(&q) {
        Some(after) => {
            for n in ["xl/worksheets/sheet1.xml", "xl/worksheets/_rels/sheet1.xml.rels", "xl/drawings/drawing1.xml"] {
                sym::check(obs::part(&before, n) == obs::part(&after, n), "a part that could not be read is saved as it was");
            }
            let o = obs::doc(&after, "xl/worksheets/other.xml");
            let c = o.as_ref().and_then(|o| o.kid("sheetData")).and_then(|d| d.kids.first()).and_then(|r| r.kids.first());
            sym::check(c.and_then(|c| c.kid("v")).map(|v| v.text == "8") == Some(true), "the other sheets are saved");
        }
        None => sym::check(false, "the saved file is a package"),
    }
    sym::reached();
}
/// a package of another kind, or with parts that start with another element, is refused and never edited
pub fn other_kind() {
    let k = sym::choose(9);
    let name = sym::text(2, "axw:");
    let c: Vec<u8> = name.bytes().collect();
    sym::assume(c[0] != b':' && c[1] != b':' || k > 6);
    let mut m = make();
    m.sst = Some(sst("<si><t>a</t></si>"));
    m.styles = Some(styles(super::sheet::TWO_STYLES));
    let prefix = |t: String, tag: &str| t.replace(&format!("<{tag} "), &format!("<{name}:{tag} xmlns:{name}=\"urn:x\" ")).replace(&format!("</{tag}>"), &format!("</{name}:{tag}>"));
    let mut main = true;
    match k {
        0 => m.workbook = format!("<{name}:document xmlns:{name}=\"urn:x\"><{name}:body/></{name}:document>"),
        1 => m.workbook = prefix(m.workbook, "workbook"),
        2 => m.sst = m.sst.map(|t| prefix(t, "sst")),
        3 => m.styles = m.styles.map(|t| prefix(t, "styleSheet")),
        4 => m.workbook = "<document/>".to_string(),
        5 => m.sheet1 = prefix(m.sheet1, "worksheet"),
        6 => m.sheet1 = format!("<chartsheet xmlns:r=\"{RNS}\"><sheetViews><sheetView workbookViewId=\"0\"/></sheetViews><drawing r:id=\"rId1\"/></chartsheet>"),
        _ => main = k == 8,
    }
    let mut parts = m.parts();
    if k > 6 {
        // the part the package points to is not there
        for p in parts.iter_mut() {
            if p.0 == "_rels/.rels" {
                let t = String::from_utf8(p.1.clone()).unwrap();
                p.1 = if main { t.replace("relationships/officeDocument", "relationships/other").into_bytes() } else { t.replace("xl/workbook.xml", "xl/other.xml").into_bytes() };
            }
        }
        if main {
            parts.retain(|p| p.0 != "xl/workbook.xml");
        }
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    let x = Excel::new(Some(p), ExcelPropertiesModel::default());
    if k < 5 || k > 6 {
        sym::check(x.is_err(), "a file that is no workbook the library can read is refused");
        sym::reached();
        return;
    }
    let mut y = need(x, "a workbook with a sheet of another kind opens");
    sym::check(y.get_worksheet_mut("Data".to_string()).is_err(), "a sheet of another kind is an error");
    {
        let mut ws = need(y.add_sheet_mut(Some("New".to_string())), "a sheet can be added");
        need(ws.set_row_value_ref_mut("A1", vec![num("8")]), "write a cell");
    }
    let q = pkg::path("b.xlsx");
    need(y.save_as(&q), "saving succeeds");
    let after = pkg::read(&q).unwrap_or_default();
    sym::check(obs::part(&parts, "xl/worksheets/sheet1.xml") == obs::part(&after, "xl/worksheets/sheet1.xml"), "a sheet of another kind is saved as it was");
    obs::consistent(&after);
    sym::reached();
}
/// relationship ids and sheet ids of any number: new sheets get ids of their own
pub fn ids() {
    let d = sym::text(3, ["12349", "123456789"][sym::bound(0, 1)]);
    let c: Vec<u8> = d.bytes().collect();
    sym::assume(c[0] != c[1] && c[0] != c[2] && c[1] != c[2]);
    let e = if sym::bound(0, 1) == 1 { sym::text(3, "123456789") } else { "429".to_string() };
    let g: Vec<u8> = e.bytes().collect();
    sym::assume(g[0] != g[1] && g[0] != g[2] && g[1] != g[2]);
    let mut m = make();
    let mut s = String::new();
    for i in 0..3 {
        s.push_str(&format!("<sheet name=\"S{}\" sheetId=\"{}\" r:id=\"rId{}\"/>", i + 1, &e[i..i + 1], &d[i..i + 1]));
    }
    m.workbook = workbook(&format!("<sheets>{s}</sheets>"));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>101</v></c></row></sheetData>");
    for i in 2..4 {
        m.extra.push((format!("xl/worksheets/sheet{i}.xml"), sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>10{i}</v></c></row></sheetData>")).into_bytes()));
        m.extra_types.push_str(&format!("<Override PartName=\"/xl/worksheets/sheet{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/>"));
    }
    let mut parts = m.parts();
    let mut r = String::new();
    for i in 0..3 {
        r.push_str(&format!("<Relationship Id=\"rId{}\" Type=\"{RNS}/worksheet\" Target=\"worksheets/sheet{}.xml\"/>", &d[i..i + 1], i + 1));
    }
    for p in parts.iter_mut() {
        if p.0 == "xl/_rels/workbook.xml.rels" {
            p.1 = format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{r}</Relationships>").into_bytes();
        }
    }
    parts.retain(|p| p.0 != "xl/theme/theme1.xml");
    for p in parts.iter_mut() {
        if p.0 == "[Content_Types].xml" {
            let t = String::from_utf8(p.1.clone()).unwrap();
            p.1 = t.replace("<Override PartName=\"/xl/theme/theme1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>", "").into_bytes();
        }
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    let mut y = open(&p, "a valid workbook opens");
    let mut model = vec![("S1".to_string(), 101), ("S2".to_string(), 102), ("S3".to_string(), 103)];
    let gone = sym::choose(4);
    if gone < 3 {
        let ws = need(y.get_worksheet_mut(model[gone].0.clone()), "a valid sheet opens");
        need(ws.delete_sheet_mut(), "delete a sheet");
        model.remove(gone);
    }
    for i in 0..sym::choose(2) + 1 {
        let name = format!("N{i}");
        let mut ws = need(y.add_sheet_mut(Some(name.clone())), "a sheet can be added");
        need(ws.set_row_value_index_mut(1, 1, vec![num(&(200 + i).to_string())]), "write a cell");
        model.push((name, 200 + i as u32));
    }
    let b = save(y, "b.xlsx");
    obs::consistent(&b.parts);
    obs::workbook_consistent(&b);
    sym::check(b.sheets.len() == model.len(), "the saved workbook has exactly the sheets of the list");
    for (s, (name, mark)) in b.sheets.iter().zip(model.iter()) {
        same(&s.name, name, "the saved sheets are in order and have the names given");
        sym::check(b.at(name, "A1") == (Kind::Number, mark.to_string()), "every sheet holds what was written to it");
    }
    sym::reached();
}
/// rows set, cells written left and right of each other, in rows with and without cells, in any order
pub fn mixed() {
    let start = sym::choose(3);
    let mut m = make();
    m.sheet1 = sheet(["<sheetData/>", "<sheetData><row r=\"7\" ht=\"20\" customHeight=\"1\"/></sheetData>", "<sheetData><row r=\"1\"><c r=\"H1\"><v>1</v></c></row></sheetData>"][start]);
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut x = open(&p, "a valid workbook opens");
    let mut want: Vec<(u32, u32, String)> = Vec::new();
    let mut high = [start == 1, false];
    if start == 2 {
        want.push((1, 8, "1".to_string()));
    }
    {
        let mut ws = need(x.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        for i in 0..sym::bound(2, 3) {
            let top = sym::bool();
            let row = if top { 1 } else { 7 };
            if sym::bool() {
                let mut r = RowProperties::default();
                r.height = Some(20.0);
                need(ws.set_row_index_properties_mut(&row, r), "set a row");
                high[top as usize] = true;
            } else {
                let col = [2u16, 7, 16382][sym::choose(3)];
                let n = sym::choose(3) + 1;
                let cells = (0..n).map(|j| num(&format!("{}", 10 * (i + 1) + j))).collect::<Vec<_>>();
                need(ws.set_row_value_index_mut(row, col, cells), "write cells");
                for j in 0..n {
                    let c = col as u32 + j as u32;
                    want.retain(|w| w.0 != row || w.1 != c);
                    want.push((row, c, format!("{}", 10 * (i + 1) + j)));
                }
            }
        }
    }
    let b = save(x, "b.xlsx");
    let s = b.sheet("Data").unwrap();
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    super::cells::dimension(s);
    let mut n = 0;
    if let Some(d) = s.root.kid("sheetData") {
        for row in &d.kids {
            for c in &row.kids {
                let r = c.attr("r").unwrap_or("");
                let v = c.kid("v").map(|v| v.text.clone()).unwrap_or_default();
                n += 1;
                sym::check(want.contains(&(obs::row_of(r), obs::col_of(r), v)), "cells are where they were written");
            }
        }
    }
    sym::check(n == want.len(), "every cell written is stored");
    for (i, r) in [(0, "7"), (1, "1")] {
        sym::check(b.row(s, r).map(|r| r.attr("ht") == Some("20")).unwrap_or(false) == high[i], "a row has its height exactly when set");
    }
    sym::reached();
}

/// attributes of a sheet's views that are yes or no, with what they are when they are not written
const VIEW_FLAGS: [(&str, bool); 11] = [
    ("windowProtection", false),
    ("showFormulas", false),
    ("showGridLines", true),
    ("showRowColHeaders", true),
    ("showZeros", true),
    ("rightToLeft", false),
    ("tabSelected", false),
    ("showRuler", true),
    ("showOutlineSymbols", true),
    ("defaultGridColor", true),
    ("showWhiteSpace", true),
];
fn yes(n: Option<&Node>, a: &str, default: bool) -> bool {
    match n.and_then(|n| n.attr(a)) {
        Some(v) => v == "1" || v == "true",
        None => default,
    }
}
/// the views of a sheet, with any flag written in any of its spellings, stay what they are when the sheet is edited
pub fn views() {
    let i = sym::choose(11);
    let v = ["0", "1", "false", "true"][sym::choose(4)];
    let w = ["", "0", "true", "1", "false"][sym::choose(sym::bound(3, 5))];
    let j = (i + 1 + if sym::bound(0, 1) == 1 { sym::choose(10) } else { 0 }) % 11;
    let d = sym::text(1, ["12", "12349"][sym::bound(0, 1)]);
    let mut at = format!(" {}=\"{v}\"", VIEW_FLAGS[i].0);
    if !w.is_empty() {
        at.push_str(&format!(" {}=\"{w}\"", VIEW_FLAGS[j].0));
    }
    let kind = sym::choose(3);
    let (inner, second) = match kind {
        0 => (String::new(), String::new()),
        1 => (format!("<pane xSplit=\"1\" ySplit=\"{d}\" topLeftCell=\"B{d}\" activePane=\"bottomRight\" state=\"frozen\"/><selection pane=\"topRight\" activeCell=\"C1\" sqref=\"C1\"/><selection pane=\"bottomRight\" activeCell=\"D{d}\" sqref=\"D{d} E{d}:F9\"/>"), String::new()),
        _ => (format!("<selection activeCell=\"A{d}\" sqref=\"A{d}\"/>"), format!("<sheetView workbookViewId=\"1\" zoomScale=\"5{d}\" {}=\"{v}\"><selection activeCell=\"B{d}\" sqref=\"B{d}\"/></sheetView>", VIEW_FLAGS[i].0)),
    };
    let body = format!("<sheetViews><sheetView workbookViewId=\"0\"{at} view=\"pageLayout\" topLeftCell=\"B{d}\" colorId=\"{d}\" zoomScale=\"1{d}0\" zoomScaleNormal=\"2{d}\" zoomScaleSheetLayoutView=\"3{d}\" zoomScalePageLayoutView=\"4{d}\">{inner}</sheetView>{second}</sheetViews><sheetData/>");
    let mut m = make();
    m.workbook = workbook("<bookViews><workbookView/><workbookView/></bookViews><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/></sheets>");
    m.sheet1 = sheet(&body);
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("A1", vec![num("8")]), "write a cell");
    }
    let b = save(y, "b.xlsx");
    let was = first.sheet("Data").and_then(|s| s.root.kid("sheetViews")).unwrap();
    let is = b.sheet("Data").and_then(|s| s.root.kid("sheetViews"));
    sym::check(is.map(|n| n.kids.len()) == Some(was.kids.len()), "the views of a sheet are kept");
    for (k, w) in was.kids.iter().enumerate() {
        let g = is.and_then(|n| n.kids.get(k));
        for (a, def) in VIEW_FLAGS {
            sym::check(yes(g, a, def) == yes(Some(w), a, def), "the settings of a sheet's view are kept");
        }
        for (a, _) in g.map(|g| &g.attrs[..]).unwrap_or(&[]) {
            sym::check(w.attr(a).is_some() || VIEW_FLAGS.iter().any(|f| f.0 == a.as_str()), "a sheet's view gets no settings of other names");
        }
        for (a, v) in &w.attrs {
            if VIEW_FLAGS.iter().all(|f| f.0 != a.as_str()) {
                match g.and_then(|g| g.attr(a)) {
                    Some(x) => same(x, v, "the settings of a sheet's view are kept"),
                    None => sym::check(false, "the settings of a sheet's view are kept"),
                }
            }
        }
        let none = Vec::new();
        let gk = g.map(|g| &g.kids).unwrap_or(&none);
        sym::check(gk.len() == w.kids.len(), "panes and selections of a sheet are kept");
        for (x, y) in gk.iter().zip(w.kids.iter()) {
            same_node(x, y, "panes and selections of a sheet are kept");
        }
    }
    sym::reached();
}
